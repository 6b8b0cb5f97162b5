package checks

import (
	"bytes"
	"database/sql"
	"encoding/json"
	"fmt"
	"io"
	"io/fs"
	"os"
	"path/filepath"
	"reflect"
	"sort"
	"strings"
	"sync"
	"testing/fstest"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
	"verifmc/faultdb"
)

func init() {
	core.Register(&core.Check{Prop: "C05", Level: "model_checking",
		Rule: "one evaluation = one ordered pair (current schema, destination schema); states are the schemas reached, transitions the generated statements executed; a trace is one generated migration executed on SQLite and compared with the destination read back from sqlite_schema",
		Run:  runC05})
}

// introspect reads a database the way the generate command does.
func introspect(s *faultdb.Server) (*ddl.Catalog, error) {
	c := &ddl.Catalog{}
	dbi := ddl.NewDatabaseIntrospector(ddl.DialectSQLite, s.DB())
	dbi.ObjectTypes = []string{"TABLES"}
	dbi.ExcludeTables = []string{"sqddl_history"}
	return c, dbi.WriteCatalog(c)
}

// structCatalog parses table structs the way the generate command does.
func structCatalog(src string) (*ddl.Catalog, error) {
	c := &ddl.Catalog{Dialect: ddl.DialectSQLite}
	p := ddl.NewStructParser(nil)
	if err := p.ParseFile(&memFile{Reader: strings.NewReader(src), name: "tables.go", size: int64(len(src))}); err != nil {
		return nil, err
	}
	return c, p.WriteCatalog(c)
}

type memFile struct {
	*strings.Reader
	name string
	size int64
}

func (m *memFile) Close() error { return nil }
func (m *memFile) Stat() (fs.FileInfo, error) {
	return fs.Stat(fstest.MapFS{m.name: {Data: make([]byte, m.size)}}, m.name)
}

// generated files by name.
func generateFiles(src, dest *ddl.Catalog, drop bool) (fstest.MapFS, []string, error) {
	cmd := &ddl.GenerateCmd{
		SrcCatalog: src, DestCatalog: dest, Prefix: "1", DropObjects: drop, Dialect: ddl.DialectSQLite,
		Stdout: io.Discard, Stderr: io.Discard,
	}
	files, warnings, err := cmd.Results()
	if err != nil {
		return nil, nil, err
	}
	out := fstest.MapFS{}
	for _, f := range files {
		var b bytes.Buffer
		info, err := f.Stat()
		if err != nil {
			return nil, nil, err
		}
		if _, err := b.ReadFrom(f); err != nil {
			return nil, nil, err
		}
		f.Close()
		out[info.Name()] = &fstest.MapFile{Data: b.Bytes()}
	}
	return out, warnings, nil
}

func fileText(m fstest.MapFS) string {
	var b strings.Builder
	for _, n := range sortedKeys(m) {
		fmt.Fprintf(&b, "-- %s\n%s", n, m[n].Data)
	}
	return b.String()
}

func migrateFiles(s *faultdb.Server, files fstest.MapFS) error {
	return (&ddl.MigrateCmd{DB: s.DB(), Dialect: ddl.DialectSQLite, DirFS: files, Stderr: io.Discard}).Run()
}

// destForm is a way of handing the destination to generate.
type destForm int

const (
	formDB destForm = iota
	formStruct
	formJSON
)

func (f destForm) String() string { return [...]string{"database", "structs", "json"}[f] }

// pair is one model transition: a source and a destination schema.
type pair struct {
	src, dest   sSchema
	sSt, dSt    style
	drop        bool
	form        destForm
	fkOn        bool
	rows        map[string][]string // INSERT statements per run, in order under key ""
	mayFail     func(err error) bool
	emptySource bool
}

func (p pair) key(family string) string {
	return fmt.Sprintf("%s drop=%v form=%s fk=%v style=%d/%d [%s] => [%s]", family, p.drop, p.form, p.fkOn, p.sSt, p.dSt, p.src.key(), p.dest.key())
}

// known is what was read from a database holding a schema: reading it twice says nothing
// new, so it is kept.
type known struct {
	once  sync.Once
	shape *shape
	cat   *ddl.Catalog
	err   error
}

var knownSchemas sync.Map

func readSchema(s sSchema, st style, form destForm) (*shape, *ddl.Catalog, error) {
	v, _ := knownSchemas.LoadOrStore(fmt.Sprint(st, form, s.key()), &known{})
	k := v.(*known)
	k.once.Do(func() {
		defer func() {
			if e := recover(); e != nil {
				k.err = fmt.Errorf("panic: %v", e)
			}
		}()
		srv := s.server(st, "_foreign_keys=false")
		defer srv.Close()
		k.shape = shapeOf(srv)
		if form == formStruct {
			k.cat, k.err = structCatalog(s.structs())
		} else {
			k.cat, k.err = introspect(srv)
		}
		if k.err == nil && form == formJSON {
			k.cat, k.err = jsonRoundTrip(k.cat)
		}
	})
	if k.err != nil {
		return nil, nil, k.err
	}
	return k.shape, copyCatalog(k.cat), nil
}

func copyCatalog(c *ddl.Catalog) *ddl.Catalog {
	return deepCopy(reflect.ValueOf(c)).Interface().(*ddl.Catalog)
}

func deepCopy(v reflect.Value) reflect.Value {
	switch v.Kind() {
	case reflect.Pointer:
		if v.IsNil() {
			return v
		}
		out := reflect.New(v.Type().Elem())
		out.Elem().Set(deepCopy(v.Elem()))
		return out
	case reflect.Slice:
		if v.IsNil() {
			return v
		}
		out := reflect.MakeSlice(v.Type(), v.Len(), v.Len())
		for i := 0; i < v.Len(); i++ {
			out.Index(i).Set(deepCopy(v.Index(i)))
		}
		return out
	case reflect.Struct:
		out := reflect.New(v.Type()).Elem()
		out.Set(v)
		for i := 0; i < v.NumField(); i++ {
			if v.Type().Field(i).IsExported() {
				out.Field(i).Set(deepCopy(v.Field(i)))
			}
		}
		return out
	}
	return v
}

// runPair generates and applies one migration and checks the outcome.
func runPair(t *core.T, p pair) {
	params := "_foreign_keys=false"
	if p.fkOn {
		params = "_foreign_keys=true"
	}
	srcShape, srcCat, err := readSchema(p.src, p.sSt, formDB)
	if err != nil {
		t.Fatal("introspect", "source: %v", err)
	}
	destShape, destCat, err := readSchema(p.dest, p.dSt, p.form)
	if err != nil {
		t.Fatal("introspect", "destination: %v", err)
	}
	if !p.src.same(p.dest) {
		t.Nontrivial()
	}
	t.State("schema", srcShape.String())
	files, _, err := generateFiles(srcCat, destCat, p.drop)
	if err != nil {
		t.Fatal("generate", "%v", err)
	}
	want := destShape
	if !p.drop {
		want = unionShape(srcShape, destShape)
	}
	if len(files) == 0 {
		t.Trace(1)
		if got := srcShape; got.String() != want.String() {
			t.Fail("schema", "no migration although the schema differs:\n%s", diffLines(want.String(), got.String()))
		}
		t.Outcome("nothing")
		return
	}
	src := p.src.server(p.sSt, params)
	defer src.Close()
	t.Step(1)
	before := sqliteDump(src, "sqddl_history")
	err = migrateFiles(src, files)
	got := shapeOf(src, "sqddl_history")
	t.State("schema", got.String())
	t.Trace(1)
	if err != nil {
		if sqliteDump(src, "sqddl_history") != before {
			t.Fail("half-applied", "failed migration changed the database: %v\n%s", err, fileText(files))
		}
		if p.mayFail != nil && p.mayFail(err) {
			t.Outcome("refused")
			return
		}
		t.Fail("rejected", "generated migration fails: %v\n%s", err, fileText(files))
		return
	}
	if got.String() != want.String() {
		t.Fail("schema", "schema after the migration differs:\n%s\nmigration:\n%s", diffLines(want.String(), got.String()), fileText(files))
		return
	}
	// From here to the same destination there must be nothing left to do.
	srcCat, err = introspect(src)
	if err != nil {
		t.Fatal("introspect", "after the migration: %v", err)
	}
	_, destCat, _ = readSchema(p.dest, p.dSt, p.form)
	again, _, err := generateFiles(srcCat, destCat, p.drop)
	if err != nil {
		t.Fatal("generate", "after the migration: %v", err)
	}
	t.Step(1)
	if len(again) > 0 {
		t.Fail("not-settled", "generating again gives:\n%s\nafter:\n%s", fileText(again), fileText(files))
		return
	}
	t.Outcome(classify(files))
	t.Sample(map[string]any{"source": p.src.key(), "destination": p.dest.key(), "drop": p.drop, "form": p.form.String(), "migration": fileText(files)})
}

func classify(files fstest.MapFS) string {
	s := fileText(files)
	switch {
	case s == "":
		return "nothing"
	case strings.Contains(s, "legacy_alter_table"):
		return "rebuild"
	case strings.Contains(s, "ALTER TABLE"):
		return "alter"
	}
	return "create or drop"
}

// unionShape is the source plus the tables, columns and indexes only the destination has.
func unionShape(src, dest *shape) *shape {
	out := &shape{tables: map[string]*tShape{}, views: src.views}
	for n, t := range src.tables {
		c := *t
		d := dest.tables[n]
		if d != nil {
			c.cols = map[string]string{}
			for k, v := range t.cols {
				c.cols[k] = v
			}
			c.idx = map[string]string{}
			for k, v := range t.idx {
				c.idx[k] = v
			}
			c.fks = append([]string{}, t.fks...)
			for k, v := range d.cols {
				if _, ok := t.cols[k]; ok {
					continue
				}
				c.cols[k] = v
				// A foreign key of an added column comes with it.
				for _, f := range d.fks {
					if strings.HasPrefix(f, qid(k)+" -> ") {
						c.fks = append(c.fks, f)
					}
				}
			}
			sort.Strings(c.fks)
			for k, v := range d.idx {
				if _, ok := t.idx[k]; !ok {
					c.idx[k] = v
				}
			}
		}
		out.tables[n] = &c
	}
	for n, t := range dest.tables {
		if out.tables[n] == nil {
			out.tables[n] = t
		}
	}
	return out
}

func (s sSchema) same(o sSchema) bool { return s.key() == o.key() }

// diffLines shows the lines only one side has.
func diffLines(want, got string) string {
	w, g := map[string]bool{}, map[string]bool{}
	for _, l := range strings.Split(want, "\n") {
		w[l] = true
	}
	for _, l := range strings.Split(got, "\n") {
		g[l] = true
	}
	var b strings.Builder
	for _, l := range strings.Split(want, "\n") {
		if !g[l] || strings.HasPrefix(l, "table ") {
			b.WriteString("- " + l + "\n")
		}
	}
	for _, l := range strings.Split(got, "\n") {
		if !w[l] {
			b.WriteString("+ " + l + "\n")
		}
	}
	return b.String()
}

// ---- enumeration ----

// feat is a point of the feature space of table t; see build.
type feat struct{ b, c, pk, uq, ix int }

var (
	bDefs = []sCol{
		{}, // absent
		{name: "b", typ: "TEXT"},
		{name: "b", typ: "TEXT", notNull: true, dflt: "'x'"},
		{name: "b", typ: "INT"},
		{name: "b", typ: "TEXT", notNull: true},
		{name: "b", typ: "TEXT", dflt: "CURRENT_TIMESTAMP"},
		{name: "b", typ: "TEXT", dflt: "(upper('q'))"},
		{name: "b", typ: "INT", dflt: "-1"},
		{name: "b", typ: "TEXT", dflt: "('a' || ')')"},
		{name: "b", typ: "INT", dflt: "((1) + (2))"},
	}
	nFeat = [5]int{len(bDefs), 3, 4, 4, 6}
)

// common is what both sides of a pair share.
type common struct {
	cascade bool
	extra   string
	tname   string // name of the table
	bname   string // name of column b
}

func (f feat) valid(k common) bool {
	hasB, hasC := f.b > 0, f.c > 0
	switch {
	case f.pk == 2 && !hasB, f.uq == 1 && !hasB, f.uq == 2 && !(hasB && hasC), f.uq == 3 && !hasC:
		return false
	case (f.ix == 1 || f.ix == 3 || f.ix == 4) && !hasB, f.ix == 2 && !hasC, f.ix == 5 && !(hasB && hasC):
		return false
	}
	return true
}

func (f feat) build(k common) sSchema {
	tn, bn := k.tname, k.bname
	if tn == "" {
		tn = "t"
	}
	if bn == "" {
		bn = "b"
	}
	t := sTable{name: tn}
	idType := "INTEGER"
	if f.pk == 1 || f.pk == 2 {
		idType = "INT"
	}
	t.cols = append(t.cols, sCol{name: "id", typ: idType})
	if f.b > 0 {
		b := bDefs[f.b]
		b.name = bn
		t.cols = append(t.cols, b)
	}
	if f.c > 0 {
		t.cols = append(t.cols, sCol{name: "c", typ: "INT"})
		if f.c == 2 {
			fk := sFK{cols: []string{"c"}, ref: "p", refCols: []string{"id"}}
			if k.cascade {
				fk.upd, fk.del = "CASCADE", "SET NULL"
			}
			t.fks = append(t.fks, fk)
		}
	}
	t.cols = append(t.cols, sCol{name: "z", typ: "TEXT"})
	switch f.pk {
	case 0:
		t.pk = []string{"id"}
	case 2:
		t.pk = []string{"id", bn}
	case 3:
		t.pk = []string{"z"}
	}
	switch f.uq {
	case 1:
		t.uniques = [][]string{{bn}}
	case 2:
		t.uniques = [][]string{{bn, "c"}}
	case 3:
		t.uniques = [][]string{{"c"}}
	}
	add := func(u bool, cols ...string) {
		t.idx = append(t.idx, sIdx{name: genName(tn, cols, "idx"), cols: cols, unique: u})
	}
	switch f.ix {
	case 1:
		add(false, bn)
	case 2:
		add(false, "c")
	case 3:
		add(true, bn, "z")
	case 4:
		t.idx = append(t.idx, sIdx{name: "partial_ix", cols: []string{"z"}, where: qid(bn) + " IS NOT NULL"})
	case 5:
		add(false, bn, "c")
		t.idx = append(t.idx, sIdx{name: "expr_ix", cols: []string{"(lower(z))", "c"}, desc: true})
	}
	p := sTable{name: "p", cols: []sCol{{name: "id", typ: "INTEGER"}, {name: "v", typ: "TEXT"}}, pk: []string{"id"}}
	s := sSchema{tables: []sTable{p}}
	switch k.extra {
	case "virtual":
		t.cols = append(t.cols, sCol{name: "g", typ: "TEXT", gen: "lower(z)"})
	case "stored":
		t.cols = append(t.cols, sCol{name: "g", typ: "TEXT", gen: "lower(z)", stored: true})
	case "stored-short":
		t.cols = append(t.cols, sCol{name: "g", typ: "TEXT", gen: "lower(z)", stored: true, short: true})
	case "check":
		t.checks = []string{"z <> 'bad'"}
	case "auto":
		if f.pk == 0 {
			t.auto = true
		}
	case "strict":
		t.suffix = "STRICT"
	case "trigger":
		t.extra = []string{"CREATE TRIGGER tr AFTER INSERT ON " + qid(tn) + " BEGIN UPDATE p SET v = NEW.z WHERE id = NEW.id; END"}
	case "view":
		s.views = []string{"CREATE VIEW v AS SELECT id, z FROM " + qid(tn)}
	case "child":
		s.tables = append(s.tables, t)
		ch := sTable{name: "ch", cols: []sCol{{name: "id", typ: "INTEGER"}, {name: "t_id", typ: "TEXT"}}, pk: []string{"id"},
			fks: []sFK{{cols: []string{"t_id"}, ref: tn, refCols: []string{"z"}, del: "CASCADE"}}}
		s.tables = append(s.tables, ch)
		return s
	case "implicit":
		t.cols = append(t.cols, sCol{name: "q", typ: "INT"})
		t.fks = append(t.fks, sFK{cols: []string{"q"}, ref: "p"})
	case "collate":
		t.cols = append(t.cols, sCol{name: "q", typ: "TEXT", collate: "NOCASE"})
	case "rowid":
		if f.pk != 1 {
			t.suffix = "WITHOUT ROWID"
		}
	case "composite":
		t.cols = append(t.cols, sCol{name: "q", typ: "INT"}, sCol{name: "r", typ: "TEXT"})
		t.fks = append(t.fks, sFK{cols: []string{"r", "q"}, ref: "pp", refCols: []string{"y", "x"}, del: "CASCADE"})
		s.tables = append(s.tables, sTable{name: "pp", cols: []sCol{{name: "x", typ: "INT"}, {name: "y", typ: "TEXT"}}, pk: []string{"x", "y"}})
	case "neighbour":
		s.tables = append(s.tables, sTable{name: tn + "_new", cols: []sCol{{name: "id", typ: "INTEGER"}}, pk: []string{"id"}})
	case "moved":
		// The same index is on one table or on the other.
		if f.ix == 2 {
			s.tables[0].idx = []sIdx{{name: "moved", cols: []string{"v"}}}
		} else {
			t.idx = append(t.idx, sIdx{name: "moved", cols: []string{"z"}})
		}
	case "self":
		t.cols = append(t.cols, sCol{name: "up", typ: "TEXT"})
		t.fks = append(t.fks, sFK{cols: []string{"up"}, ref: tn, refCols: []string{"z"}})
	}
	s.tables = append(s.tables, t)
	return s
}

func allFeats(k common) []feat {
	var out []feat
	for b := 0; b < nFeat[0]; b++ {
		for c := 0; c < nFeat[1]; c++ {
			for pk := 0; pk < nFeat[2]; pk++ {
				for uq := 0; uq < nFeat[3]; uq++ {
					for ix := 0; ix < nFeat[4]; ix++ {
						f := feat{b, c, pk, uq, ix}
						if f.valid(k) {
							out = append(out, f)
						}
					}
				}
			}
		}
	}
	return out
}

func (f feat) distance(g feat) int {
	n := 0
	for _, d := range []bool{f.b != g.b, f.c != g.c, f.pk != g.pk, f.uq != g.uq, f.ix != g.ix} {
		if d {
			n++
		}
	}
	return n
}

// cannotAdd tells whether SQLite's ADD COLUMN refuses some column only the destination
// has. Without drop-objects no table is rebuilt, so such a migration has to fail, cleanly.
func cannotAdd(src, dest sSchema) bool {
	for _, d := range dest.tables {
		s := src.table(d.name)
		if s == nil {
			continue
		}
		for _, c := range d.cols {
			if s.col(c.name) != nil {
				continue
			}
			if c.notNull && c.dflt == "" || c.gen != "" && c.stored {
				return true
			}
			if strings.HasPrefix(c.dflt, "(") || strings.HasPrefix(c.dflt, "CURRENT_") {
				return true
			}
			for _, u := range d.uniques {
				if len(u) == 1 && u[0] == c.name {
					return true
				}
			}
			if len(d.pk) == 1 && d.pk[0] == c.name {
				return true
			}
		}
	}
	return false
}

func runC05(r *core.Runner) {
	always := func(error) bool { return true }
	mk := func(src, dest sSchema, drop bool, form destForm, i int) pair {
		if form == formStruct {
			dest = dest.structPK()
		}
		p := pair{src: src, dest: dest, drop: drop, form: form, sSt: style(i % int(numStyles)), dSt: style(i / int(numStyles) % int(numStyles))}
		if !drop && cannotAdd(src, dest) {
			p.mayFail = always
		}
		return p
	}
	run := func(family string, p pair) {
		r.Count("pairs in family "+family, 1)
		r.Go(p.key(family), func(t *core.T) { runPair(t, p) })
	}
	// 1. Every pair of table definitions that differ in at most two (thorough: any number
	// of) features, the writing style cycling through all combinations.
	k := common{}
	feats := allFeats(k)
	n := 0
	for _, f := range feats {
		for _, g := range feats {
			d := f.distance(g)
			if d > r.Pick(1, 5) && !(d == 2 && f.ix == 0 && g.ix == 0 && f.b < 5 && g.b < 5) {
				continue
			}
			if !r.Thorough() && (f.pk > 1 && f.uq > 1 || g.pk > 1 && g.uq > 1) {
				continue
			}
			if r.Stop() {
				break
			}
			n++
			src, dest := f.build(k), g.build(k)
			for _, drop := range []bool{true, false} {
				if !drop && !r.Thorough() && (d > 1 || f.uq > 1 || g.uq > 1) {
					continue
				}
				form := formDB
				if dest.structable() && n%2 == 0 {
					form = formStruct
				}
				run("features", mk(src, dest, drop, form, n))
			}
		}
	}
	// 2. The same with further objects in the table or around it that must survive.
	for _, extra := range []string{"virtual", "stored", "stored-short", "check", "auto", "strict", "trigger", "view", "child", "self", "implicit", "collate", "rowid", "composite", "neighbour", "moved"} {
		k := common{cascade: true, extra: extra}
		for _, f := range feats {
			if f.ix > 2 || f.uq > 1 || !r.Thorough() && f.b > 3 {
				continue
			}
			for _, g := range feats {
				if g.ix > 2 || g.uq > 1 || !r.Thorough() && g.b > 3 || f.distance(g) > 1 || extra == "auto" && (f.pk == 0) != (g.pk == 0) || extra == "rowid" && (f.pk == 1) != (g.pk == 1) {
					continue
				}
				if r.Stop() {
					break
				}
				n++
				src, dest := f.build(k), g.build(k)
				for _, drop := range []bool{true, false} {
					p := mk(src, dest, drop, formDB, n)
					if extra == "moved" && !drop {
						// The name is taken and nothing may be dropped.
						p.mayFail = always
					}
					run(extra, p)
				}
				// Structs cannot declare triggers; those of the source have to stay.
				if bare := g.build(common{cascade: true}); extra == "trigger" && bare.structable() {
					run(extra, mk(src, dest, true, formStruct, n))
				}
			}
		}
	}
	// Every pair of definitions of one column, and of the keys over two columns.
	for fi, list := range [][]sSchema{columnSchemas(), twoColumnSchemas()} {
		fam := []string{"column", "two columns"}[fi]
		for i, src := range list {
			for j, dest := range list {
				if r.Stop() {
					break
				}
				for _, drop := range []bool{true, false} {
					run(fam, mk(src, dest, drop, formDB, i*len(list)+j))
					if dest.structable() {
						run(fam, mk(src, dest, drop, formStruct, i*len(list)+j+i))
					}
				}
			}
		}
	}
	// 3. Names that need quoting or collide with the names of generated objects.
	for _, tn := range weirdNames {
		for _, bn := range []string{"b", "order", "B b", `q"q`, "it's", "[x]", "ü"} {
			if !r.Thorough() && tn != "t" && tn != `a"b` && bn != "b" && bn != `q"q` {
				continue
			}
			k := common{tname: tn, bname: bn}
			for _, f := range feats {
				if f.pk > 0 && f.pk != 2 || f.uq > 1 || f.ix > 1 || f.b > 2 || f.c == 1 {
					continue
				}
				for _, g := range feats {
					if g.pk > 0 && g.pk != 2 || g.uq > 1 || g.ix > 1 || g.b > 2 || g.c == 1 || f.distance(g) > 1 {
						continue
					}
					if r.Stop() {
						break
					}
					n++
					run("names", mk(f.build(k), g.build(k), true, formDB, n))
					run("names", mk(f.build(k), g.build(k), false, formDB, n))
				}
			}
		}
	}
	// 4. Sets of tables that refer to each other.
	nets := networks(r.Thorough())
	for i, a := range nets {
		for j, b := range nets {
			if r.Stop() {
				break
			}
			n++
			for _, drop := range []bool{true, false} {
				form := formDB
				if (i+j)%2 == 0 {
					form = formStruct
				}
				run("network", mk(a, b, drop, form, n))
			}
		}
	}
	// 5. The command line: every form of source with every form of destination.
	r.Wait()
	base, err := os.MkdirTemp("", "c05cli")
	if err != nil {
		core.Broken("%v", err)
	}
	defer os.RemoveAll(base)
	cliForms(r, base)
	r.Wait()
}

// columnSchemas are the combinations of type, nullability and default of a column.
func columnSchemas() []sSchema {
	var out []sSchema
	for _, typ := range []string{"INT", "TEXT", "VARCHAR(10)", ""} {
		for _, notNull := range []bool{false, true} {
			for _, dflt := range []string{"", "0", "1", "'x'", "'X'", "NULL", "CURRENT_TIMESTAMP", "(upper('q'))"} {
				if notNull && dflt == "NULL" {
					continue
				}
				out = append(out, sSchema{tables: []sTable{{name: "t", pk: []string{"id"}, cols: []sCol{
					{name: "id", typ: "INTEGER"}, {name: "b", typ: typ, notNull: notNull, dflt: dflt}, {name: "z", typ: "TEXT"},
				}}}})
			}
		}
	}
	return out
}

// twoColumnSchemas are tables with none, one or both of two columns and every set of keys
// over them.
func twoColumnSchemas() []sSchema {
	var out []sSchema
	for cols := 0; cols < 4; cols++ {
		for keys := 0; keys < 32; keys++ {
			q, r := cols&1 != 0, cols&2 != 0
			t := sTable{name: "t", pk: []string{"id"}, cols: []sCol{{name: "id", typ: "INTEGER"}}}
			if q {
				t.cols = append(t.cols, sCol{name: "q", typ: "INT"})
			}
			if r {
				t.cols = append(t.cols, sCol{name: "r", typ: "TEXT"})
			}
			ok := true
			for i := 0; i < 5; i++ {
				if keys>>i&1 == 0 {
					continue
				}
				switch i {
				case 0:
					ok = ok && q && r
					t.fks = append(t.fks, sFK{cols: []string{"q", "r"}, ref: "pp", refCols: []string{"x", "y"}})
				case 1:
					ok = ok && q
					t.fks = append(t.fks, sFK{cols: []string{"q"}, ref: "p", refCols: []string{"id"}})
				case 2:
					ok = ok && q && r
					t.uniques = append(t.uniques, []string{"q", "r"})
				case 3:
					ok = ok && r
					t.uniques = append(t.uniques, []string{"r"})
				case 4:
					ok = ok && q && r
					t.idx = append(t.idx, sIdx{name: "t_r_q_idx", cols: []string{"r", "q"}})
				}
			}
			if !ok {
				continue
			}
			out = append(out, sSchema{tables: []sTable{
				{name: "p", cols: []sCol{{name: "id", typ: "INTEGER"}, {name: "v", typ: "TEXT"}}, pk: []string{"id"}},
				{name: "pp", cols: []sCol{{name: "x", typ: "INT"}, {name: "y", typ: "TEXT"}}, pk: []string{"x", "y"}},
				t,
			}})
		}
	}
	return out
}

var weirdNames = []string{"t", "order", "My Table", `a"b`, "it's", "[br]", "t_new", "sqlitex", "ünï"}

// networks enumerates sets of up to three tables and the foreign keys between them.
func networks(thorough bool) []sSchema {
	names := []string{"a", "b", "c"}
	edges := [][2]int{{0, 1}, {1, 0}, {0, 0}, {1, 2}, {2, 0}}
	var out []sSchema
	for present := 0; present < 8; present++ {
		for e := 0; e < 1<<len(edges); e++ {
			ok := true
			for i, ed := range edges {
				if e>>i&1 == 1 && (present>>ed[0]&1 == 0 || present>>ed[1]&1 == 0) {
					ok = false
				}
			}
			if !ok {
				continue
			}
			var s sSchema
			for i, n := range names {
				if present>>i&1 == 0 {
					continue
				}
				t := sTable{name: n, cols: []sCol{{name: "id", typ: "INTEGER"}}, pk: []string{"id"}}
				for j, ed := range edges {
					if e>>j&1 == 1 && ed[0] == i {
						col := names[ed[1]] + "_id"
						t.cols = append(t.cols, sCol{name: col, typ: "INT"})
						t.fks = append(t.fks, sFK{cols: []string{col}, ref: names[ed[1]], refCols: []string{"id"}})
					}
				}
				s.tables = append(s.tables, t)
			}
			out = append(out, s)
		}
	}
	return out
}

// structPK makes the primary key columns NOT NULL, as table structs do (except for the
// alias of the rowid).
func (s sSchema) structPK() sSchema {
	out := sSchema{views: s.views}
	for _, t := range s.tables {
		t.cols = append([]sCol{}, t.cols...)
		for _, n := range t.pk {
			if c := t.col(n); len(t.pk) > 1 || c.typ != "INTEGER" {
				c.notNull = true
			}
		}
		out.tables = append(out.tables, t)
	}
	return out
}

func jsonRoundTrip(c *ddl.Catalog) (*ddl.Catalog, error) {
	b, err := json.Marshal(c)
	if err != nil {
		return nil, err
	}
	out := &ddl.Catalog{}
	return out, json.Unmarshal(b, out)
}

// cliSchemas are the schemas of the command line family.
func cliSchemas() []sSchema {
	k := common{}
	out := []sSchema{{}}
	for _, f := range []feat{{1, 2, 0, 0, 0}, {1, 2, 0, 0, 1}, {2, 1, 0, 1, 0}, {0, 0, 1, 0, 0}, {2, 2, 2, 2, 5}, {6, 2, 0, 3, 0}} {
		out = append(out, f.build(k))
	}
	return append(out, networks(false)[0], networks(false)[7], feat{1, 2, 0, 0, 1}.build(common{tname: "order", bname: "B"}))
}

var (
	cliSrcForms  = []string{"none", "db", "json", "dir", "zip", "tgz", "db flag"}
	cliDestForms = []string{"db", "json", "dir", "zip", "tgz", "structs", "two struct files"}
)

// cliForms writes every schema in every form below base and generates between all of them.
func cliForms(r *core.Runner, base string) {
	schemas := cliSchemas()
	path := func(i int, name string) string { return filepath.Join(base, fmt.Sprint("s", i), name) }
	for i, s := range schemas {
		if err := os.MkdirAll(path(i, "dump"), 0o755); err != nil {
			core.Broken("%v", err)
		}
		db, err := sql.Open("sqlite3", path(i, "db.sqlite3"))
		if err != nil {
			core.Broken("%v", err)
		}
		for _, q := range append(s.ddl(style(i%int(numStyles))), "CREATE TABLE sqddl_history (filename TEXT)") {
			if _, err := db.Exec(q); err != nil {
				core.Broken("%v", err)
			}
		}
		db.Close()
		ss := s.structPK()
		writeFile(path(i, "tables.go"), ss.structs())
		half := len(ss.tables) / 2
		writeFile(path(i, "tables1.go"), sSchema{tables: ss.tables[:half]}.structs())
		writeFile(path(i, "tables2.go"), sSchema{tables: ss.tables[half:]}.structs())
	}
	// The dumps are made by the tool, as a user would.
	r.Do("dumps for the command line family", func(t *core.T) {
		for i := range schemas {
			for _, args := range [][]string{
				{"-output-dir", path(i, "dump")},
				{"-output-dir", path(i, ""), "-zip", "dump.zip"},
				{"-output-dir", path(i, ""), "-tgz", "dump.tgz"},
			} {
				cmd, err := ddl.DumpCommand(append([]string{"-db", path(i, "db.sqlite3"), "-schema-only"}, args...)...)
				if err != nil {
					t.Fatal("dump", "%v", err)
				}
				cmd.Stderr = io.Discard
				if err := cmd.Run(); err != nil {
					t.Fatal("dump", "%v", err)
				}
			}
		}
	})
	src := func(form string, i int) []string {
		switch form {
		case "none":
			return []string{"-dialect", "sqlite"}
		case "db":
			return []string{"-src", path(i, "db.sqlite3")}
		case "db flag":
			return []string{"-db", "sqlite:" + path(i, "db.sqlite3")}
		case "json":
			return []string{"-src", path(i, "dump/schema.json")}
		case "dir":
			return []string{"-src", path(i, "dump")}
		}
		return []string{"-src", path(i, "dump."+form)}
	}
	dest := func(form string, i int) []string {
		switch form {
		case "structs":
			return []string{"-dest", path(i, "tables.go")}
		case "two struct files":
			return []string{"-dest", path(i, "tables1.go") + "," + path(i, "tables2.go")}
		}
		a := src(form, i)
		return []string{"-dest", a[1]}
	}
	for i, a := range schemas {
		for j, b := range schemas {
			for si, sf := range cliSrcForms {
				if sf == "none" && i != 0 {
					continue
				}
				for di, df := range cliDestForms {
					if r.Stop() {
						return
					}
					st := df == "structs" || df == "two struct files"
					if st && !b.structable() || df == "two struct files" && b.forward(len(b.tables)/2) {
						continue
					}
					d, form := b, formDB
					if st {
						d, form = b.structPK(), formStruct
					}
					for _, drop := range []bool{true, false} {
						args := append(src(sf, i), dest(df, j)...)
						out := filepath.Join(base, fmt.Sprint("out", i, "-", j, "-", si, "-", di, drop))
						args = append(args, "-prefix", "1", "-output-dir", out)
						if drop {
							args = append(args, "-drop-objects")
						}
						p := pair{src: a, dest: d, drop: drop, form: form, sSt: style(i % int(numStyles)), dSt: style(j % int(numStyles))}
						if !drop && cannotAdd(a, d) {
							p.mayFail = func(error) bool { return true }
						}
						r.Go(p.key("cli "+sf+" to "+df), func(t *core.T) { runCLI(t, p, args, out) })
					}
				}
			}
		}
	}
}

// forward tells whether one of the first n tables refers to a later one; the struct files
// of a schema are read one after the other and must come in the order of their references.
func (s sSchema) forward(n int) bool {
	for _, t := range s.tables[:n] {
		for _, f := range t.fks {
			for _, o := range s.tables[n:] {
				if f.ref == o.name {
					return true
				}
			}
		}
	}
	return false
}

func writeFile(name, content string) {
	if err := os.WriteFile(name, []byte(content), 0o644); err != nil {
		core.Broken("%v", err)
	}
}

func runCLI(t *core.T, p pair, args []string, out string) {
	if err := os.MkdirAll(out, 0o755); err != nil {
		core.Broken("%v", err)
	}
	defer os.RemoveAll(out)
	generate := func() fstest.MapFS {
		cmd, err := ddl.GenerateCommand(args...)
		if err != nil {
			t.Fatal("generate", "%v", err)
		}
		cmd.Stdout, cmd.Stderr = io.Discard, io.Discard
		if err := cmd.Run(); err != nil {
			t.Fatal("generate", "%v", err)
		}
		files := fstest.MapFS{}
		es, err := os.ReadDir(out)
		if err != nil {
			core.Broken("%v", err)
		}
		for _, e := range es {
			b, err := os.ReadFile(filepath.Join(out, e.Name()))
			if err != nil {
				core.Broken("%v", err)
			}
			files[e.Name()] = &fstest.MapFile{Data: b}
		}
		return files
	}
	files := generate()
	t.Step(1)
	t.Trace(1)
	if !p.src.same(p.dest) {
		t.Nontrivial()
	}
	src := p.src.server(p.sSt, "_foreign_keys=false")
	defer src.Close()
	dest := p.dest.server(p.dSt, "_foreign_keys=false")
	defer dest.Close()
	srcShape, want := shapeOf(src), shapeOf(dest)
	if !p.drop {
		want = unionShape(srcShape, want)
	}
	if len(files) > 0 {
		if err := migrateFiles(src, files); err != nil {
			if p.mayFail != nil && p.mayFail(err) {
				t.Outcome("refused")
				return
			}
			t.Fatal("rejected", "%v\n%s", err, fileText(files))
		}
	}
	got := shapeOf(src, "sqddl_history")
	t.State("schema", got.String())
	if got.String() != want.String() {
		t.Fail("schema", "%s\n%s", diffLines(want.String(), got.String()), fileText(files))
	}
	t.Outcome("cli " + classify(files))
}
