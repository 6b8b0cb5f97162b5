package checks

import (
	"context"
	"database/sql/driver"
	"fmt"
	"math/bits"
	"regexp"
	"sort"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
	"verifmc/faultdb"
)

// wObj is an object that can be dropped, with the objects it depends on.
type wObj struct {
	kind         string // table, view, matview, foreign key, function, procedure, aggregate, enum, domain, extension
	schema, name string // a foreign key has the schema of its table and the name table\x00name
	args         string
	deps         []string // keys of what it needs
	bound        bool     // SQL Server: WITH SCHEMABINDING
	keep         bool     // belongs to the system or to another database
}

func (o *wObj) key() string {
	k := o.kind
	switch k {
	case "view", "matview":
		k = "table"
	case "procedure", "aggregate":
		k = "function"
	case "domain":
		k = "enum"
	}
	return k + "\x00" + o.schema + "\x00" + o.name + "\x00" + o.args
}

// wipeWorld is a database as its catalog describes it and as its server enforces it.
type wipeWorld struct {
	*xWorld
	objs []*wObj
}

func wKey(kind, schema, name string) string {
	return (&wObj{kind: kind, schema: schema, name: name}).key()
}

// collect adds the objects of the description that are not listed yet.
func (w *wipeWorld) collect() {
	seen := map[string]bool{}
	for _, o := range w.objs {
		seen[o.key()] = true
	}
	add := func(o wObj, ext bool) {
		if seen[o.key()] {
			return
		}
		if ext {
			o.deps = append(o.deps, "member\x00"+w.exts[0])
		}
		if w.dialect == "mysql" && o.schema != dbName {
			o.keep = true
		}
		w.objs = append(w.objs, &o)
	}
	for _, e := range w.exts {
		add(wObj{kind: "extension", name: e, keep: e == "plpgsql"}, false)
	}
	for _, s := range w.schemas {
		for _, t := range s.tables {
			add(wObj{kind: "table", schema: s.name, name: t.name, keep: s.system || t.system}, t.extension)
			for _, k := range t.cons {
				if k.ConstraintType == "FOREIGN KEY" {
					add(wObj{kind: "foreign key", schema: s.name, name: t.name + "\x00" + k.ConstraintName, deps: []string{wKey("table", s.name, t.name), wKey("table", k.ReferencesSchema, k.ReferencesTable)}, keep: s.system || t.system}, false)
				}
			}
		}
		for _, v := range s.views {
			kind := "view"
			if v.IsMaterialized {
				kind = "matview"
			}
			add(wObj{kind: kind, schema: s.name, name: v.ViewName, keep: s.system || v.system}, v.extension)
		}
		for _, x := range s.routines {
			o := wObj{kind: strings.ToLower(x.RoutineType), schema: s.name, name: x.RoutineName, args: x.IdentityArguments, keep: s.system || x.sys}
			if o.kind == "window" {
				o.kind = "function"
			}
			if w.dialect != "postgres" {
				o.args = o.kind[:1] // functions and procedures do not share their names on MySQL
				if w.dialect == "sqlserver" {
					o.args = ""
				}
			}
			add(o, x.extension)
		}
		for _, e := range s.enums {
			add(wObj{kind: "enum", schema: s.name, name: e.EnumName, keep: s.system}, has(s.extTypes, e.EnumName))
		}
		for _, d := range s.domains {
			add(wObj{kind: "domain", schema: s.name, name: d.DomainName, keep: s.system}, has(s.extTypes, d.DomainName))
		}
	}
}

func (w *wipeWorld) depends(kind, schema, name string, on ...string) {
	w.collect()
	for _, o := range w.objs {
		if o.kind == kind && o.schema == schema && o.name == name {
			o.deps = append(o.deps, on...)
			return
		}
	}
	core.Broken("no %s %s.%s", kind, schema, name)
}

// wipeServer answers catalog queries from the description and executes drop
// statements by the rules of the dialect. What exists is kept in a table, so
// that transactions are those of a real database.
type wipeServer struct {
	*faultdb.Server
	w       *wipeWorld
	cat     *sysCat
	gone    map[int]map[string]bool // dropped by the open transaction of a connection
	unknown string
	texts   []string
}

func newWipeServer(w *wipeWorld, cat *sysCat) *wipeServer {
	s := &wipeServer{Server: faultdb.New(""), w: w, cat: cat, gone: map[int]map[string]bool{}}
	s.MustExec("CREATE TABLE obj (k PRIMARY KEY)")
	for _, o := range w.objs {
		s.MustExec("INSERT INTO obj VALUES (" + hexText(o.key()) + ")")
	}
	s.Server.Translate = s.answer
	return s
}

func hexText(k string) string { return fmt.Sprintf("x'%x'", k) }

func (s *wipeServer) there() map[string]bool {
	out := map[string]bool{}
	for _, row := range s.MustQuery("SELECT k FROM obj") {
		switch k := row[0].(type) {
		case []byte:
			out[string(k)] = true
		case string:
			out[k] = true
		}
	}
	return out
}

// left is what a wipe should have dropped, lost what it should not have.
func (s *wipeServer) left() (left, lost []string) {
	there := s.there()
	for _, o := range s.w.objs {
		name := strings.ReplaceAll(strings.Trim(o.kind+" "+o.schema+"."+o.name+"("+o.args+")", "()"), "\x00", ": ")
		if there[o.key()] && !o.keep {
			left = append(left, name)
		}
		if !there[o.key()] && o.keep {
			lost = append(lost, name)
		}
	}
	sort.Strings(left)
	return left, lost
}

var reWipeHead = regexp.MustCompile(`(?i)^\s*(DROP|ALTER)\b`)

func (s *wipeServer) answer(conn int, query string, args []driver.NamedValue) (string, []driver.NamedValue, *faultdb.Answer) {
	reply := func(a faultdb.Answer) (string, []driver.NamedValue, *faultdb.Answer) { return "", nil, &a }
	if reWipeHead.MatchString(query) {
		there := s.there()
		inTx := s.gone[conn]
		for k := range inTx {
			delete(there, k)
		}
		before := len(there)
		all := map[string]bool{}
		for k := range there {
			all[k] = true
		}
		if err := s.run(query, there); err != nil {
			return reply(faultdb.Answer{Err: err})
		}
		q := "DELETE FROM obj WHERE k IN (x''"
		for k := range all {
			if !there[k] {
				q += "," + hexText(k)
				if inTx != nil {
					inTx[k] = true
				}
			}
		}
		if before == len(there) {
			return "DELETE FROM obj WHERE FALSE", nil, nil
		}
		return q + ")", nil, nil
	}
	rows, err := s.cat.QueryContext(context.Background(), query)
	if err != nil {
		if untranslatable(err) {
			s.unknown = err.Error() + " in " + query
		}
		return reply(faultdb.Answer{Err: err})
	}
	defer rows.Close()
	a := faultdb.Answer{}
	a.Cols, _ = rows.Columns()
	for rows.Next() {
		vals, ptrs, out := make([]any, len(a.Cols)), make([]any, len(a.Cols)), make([]driver.Value, len(a.Cols))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		if err := rows.Scan(ptrs...); err != nil {
			return reply(faultdb.Answer{Err: err})
		}
		for i := range vals {
			out[i] = vals[i]
		}
		a.Rows = append(a.Rows, out)
	}
	a.Err = rows.Err()
	return reply(a)
}

// run executes the statements one after the other on what is there.
func (s *wipeServer) run(query string, there map[string]bool) (err error) {
	defer func() {
		if r := recover(); r != nil {
			ref, ok := r.(refusal)
			if !ok {
				panic(r)
			}
			err = fmt.Errorf("%s", ref.msg)
		}
	}()
	toks, err := lexSQL(s.w.dialect, query)
	if err != nil {
		return err
	}
	start := 0
	for i := 0; i <= len(toks); i++ {
		if i < len(toks) && !(toks[i].kind == tOp && toks[i].text == ";") {
			continue
		}
		if i > start {
			p := &ddlParser{db: &mDB{dialect: s.w.dialect, cur: s.w.schemas[0].name}, toks: toks[start:i]}
			s.statement(p, there)
			s.texts = append(s.texts, p.rest())
		}
		start = i + 1
	}
	return nil
}

// target reads [schema.]name.
func (s *wipeServer) target(p *ddlParser) (schema, name string) {
	schema, name = s.w.schemas[0].name, p.name()
	if p.accept(".") {
		schema, name = name, p.name()
	}
	return schema, name
}

func (s *wipeServer) statement(p *ddlParser, there map[string]bool) {
	dialect := s.w.dialect
	find := func(kind, schema, name string) (out []*wObj) {
		for _, o := range s.w.objs {
			k := wObj{kind: kind}
			if there[o.key()] && strings.Split(o.key(), "\x00")[0] == strings.Split(k.key(), "\x00")[0] && o.schema == schema && o.name == name {
				out = append(out, o)
			}
		}
		return out
	}
	cascade := func() bool {
		if dialect != "sqlserver" {
			if p.accept("CASCADE") {
				return true
			}
			p.accept("RESTRICT")
		}
		return false
	}
	end := func() {
		if !p.end() {
			refuse("syntax error at %s", p.rest())
		}
	}
	if p.accept("ALTER", "TABLE") {
		ifTable := dialect != "mysql" && dialect != "sqlserver" && p.accept("IF", "EXISTS")
		if dialect == "postgres" {
			p.accept("ONLY")
		}
		schema, table := s.target(p)
		ifExists := false
		if dialect == "mysql" && p.accept("DROP", "FOREIGN", "KEY") {
			p.accept()
		} else {
			p.expect("DROP", "CONSTRAINT")
			ifExists = dialect != "mysql" && p.accept("IF", "EXISTS")
		}
		name := p.name()
		if dialect == "postgres" {
			cascade()
		}
		end()
		if len(find("table", schema, table)) == 0 {
			if ifTable {
				return
			}
			refuse("table %s.%s does not exist", schema, table)
		}
		list := find("foreign key", schema, table+"\x00"+name)
		if len(list) == 0 {
			if ifExists {
				return
			}
			refuse("constraint %s of %s.%s does not exist", name, schema, table)
		}
		s.drop(list[0], there, false, "")
		return
	}
	p.expect("DROP")
	kind := ""
	for _, k := range []struct{ words, kind, dialects string }{
		{"MATERIALIZED VIEW", "matview", "postgres"}, {"VIEW", "view", "postgres mysql sqlserver"}, {"TABLE", "table", "postgres mysql sqlserver"},
		{"FUNCTION", "function", "postgres mysql sqlserver"}, {"PROCEDURE", "procedure", "postgres mysql sqlserver"}, {"AGGREGATE", "aggregate", "postgres"}, {"ROUTINE", "routine", "postgres"},
		{"TYPE", "enum", "postgres"}, {"DOMAIN", "domain", "postgres"}, {"EXTENSION", "extension", "postgres"},
	} {
		if strings.Contains(k.dialects, dialect) && p.accept(strings.Fields(k.words)...) {
			kind = k.kind
			break
		}
	}
	if kind == "" {
		refuse("syntax error at DROP %s", p.rest())
	}
	if kind == "routine" && s.w.major() < 11 {
		refuse("syntax error at ROUTINE")
	}
	ifExists := p.accept("IF", "EXISTS")
	type target struct{ schema, name, args string }
	var targets []target
	for {
		t := target{args: "?"}
		t.schema, t.name = s.target(p)
		if kind == "extension" {
			t.schema = ""
		}
		if kind != "table" && kind != "view" && p.accept("(") {
			if dialect != "postgres" {
				refuse("syntax error at (")
			}
			t.args = ""
			for depth := 1; ; p.i++ {
				if p.end() {
					refuse("syntax error: ) expected")
				}
				if p.peek("(") {
					depth++
				} else if p.peek(")") {
					if depth--; depth == 0 {
						break
					}
				}
				t.args += p.toks[p.i].text + " "
			}
			p.expect(")")
			t.args = strings.TrimSpace(t.args)
			if kind == "aggregate" && t.args == "*" {
				t.args = ""
			} else if kind == "aggregate" && t.args == "" {
				refuse("syntax error at )")
			}
		} else if kind == "aggregate" || dialect == "postgres" && s.w.major() < 10 && kind == "function" {
			refuse("syntax error at %s: arguments expected", p.rest())
		}
		targets = append(targets, t)
		if !p.accept(",") {
			break
		}
	}
	isCascade := false
	if kind != "function" && kind != "procedure" || dialect == "postgres" {
		isCascade = cascade()
	}
	end()
	for _, t := range targets {
		var list []*wObj
		for _, o := range find(map[bool]string{true: "function", false: kind}[kind == "routine"], t.schema, t.name) {
			if dialect == "mysql" && (kind == "function" || kind == "procedure") && o.kind != kind {
				continue
			}
			if t.args == "?" || sameArgs(o.args, t.args) {
				list = append(list, o)
			}
		}
		switch {
		case len(list) == 0 && ifExists:
			continue
		case len(list) == 0:
			refuse("%s %s.%s does not exist", kind, t.schema, t.name)
		case len(list) > 1:
			refuse("%s name %s is not unique", kind, t.name)
		case list[0].kind != kind && kind != "routine" && !(kind == "enum" && list[0].kind == "domain"):
			refuse("%s.%s is not a %s", t.schema, t.name, kind)
		}
		s.drop(list[0], there, isCascade && dialect == "postgres", "")
	}
}

// sameArgs compares argument lists by their words.
func sameArgs(a, b string) bool {
	ta, err1 := lexSQL("postgres", a)
	tb, err2 := lexSQL("postgres", b)
	if err1 != nil || err2 != nil || len(ta) != len(tb) {
		return false
	}
	for i := range ta {
		if ta[i] != tb[i] && !strings.EqualFold(ta[i].text, tb[i].text) {
			return false
		}
	}
	return true
}

func (s *wipeServer) drop(o *wObj, there map[string]bool, cascade bool, from string) {
	if !there[o.key()] {
		return
	}
	if o.keep && s.w.dialect != "mysql" {
		refuse("cannot drop %s %s because it is required by the database system", o.kind, o.name)
	}
	for _, d := range o.deps {
		if ext, ok := strings.CutPrefix(d, "member\x00"); ok && from != ext && there[wKey("extension", "", ext)] {
			refuse("cannot drop %s %s because extension %s requires it", o.kind, o.name, ext)
		}
	}
	delete(there, o.key())
	for _, x := range s.w.objs {
		if !there[x.key()] || x == o {
			continue
		}
		isMember := o.kind == "extension" && has(x.deps, "member\x00"+o.name)
		if !isMember && !has(x.deps, o.key()) {
			continue
		}
		own := isMember || x.kind == "foreign key" && o.kind == "table" && strings.HasPrefix(x.name, o.name+"\x00") && x.schema == o.schema
		switch {
		case own:
			s.drop(x, there, true, o.name)
		case s.w.dialect == "postgres" && !cascade:
			refuse("cannot drop %s %s because %s %s depends on it", o.kind, o.name, x.kind, x.name)
		case s.w.dialect == "postgres":
			if x.kind != "table" { // a table only loses a column or a default
				s.drop(x, there, true, from)
			}
		case x.kind == "foreign key":
			refuse("cannot drop table %s referenced by the foreign key %s", o.name, x.name)
		case s.w.dialect == "sqlserver" && (x.bound || x.kind == "table"):
			refuse("cannot drop %s %s because it is being referenced by %s %s", o.kind, o.name, x.kind, x.name)
		}
	}
}

// wipeOther runs wipe on the model of a server.
func wipeOther(r *core.Runner, key string, w *wipeWorld, faults bool) {
	if r.Stop() {
		return
	}
	r.Go("server/"+key, func(t *core.T) {
		w.collect()
		cat := w.load()
		defer cat.close()
		full := len(w.objs)
		start := func() *wipeServer {
			s := newWipeServer(w, cat)
			return s
		}
		run := func(s *wipeServer, dry bool, hook func(faultdb.Op) faultdb.Mode) (string, error) {
			s.Hook = func(op faultdb.Op) faultdb.Mode {
				switch op.Kind {
				case "begin":
					s.gone[op.Conn] = map[string]bool{}
				case "commit", "rollback":
					delete(s.gone, op.Conn)
				}
				if hook != nil {
					return hook(op)
				}
				return faultdb.OK
			}
			db := s.DB()
			s.Reset()
			var out syncBuf
			t.Step(1)
			err := (&ddl.WipeCmd{DB: db, Dialect: w.dialect, DryRun: dry, Stdout: &out}).Run()
			s.Hook = nil
			s.Reset()
			return out.String(), err
		}
		s := start()
		t.Nontrivial()
		_, err := run(s, false, nil)
		if s.unknown != "" {
			t.Logf("not judged: %s", s.unknown)
			s.Close()
			return
		}
		left, lost := s.left()
		switch {
		case err != nil:
			t.Fail("server-refused", "wipe fails: %v", err)
			if len(s.there()) != full && w.dialect != "mysql" {
				t.Fail("not-atomic", "wipe failed and changed the database, left: %v", left)
			}
		case len(left) > 0:
			t.Fail("server-left", "still there after wipe: %v", left)
		}
		if len(lost) > 0 {
			t.Fail("server-lost", "wipe of %s dropped %v", dbName, lost)
		}
		s.Close()
		s = start()
		out, err := run(s, true, nil)
		if err != nil {
			t.Fail("dry-run", "dry run fails: %v", err)
		}
		if len(s.there()) != full {
			t.Fail("dry-run", "the dry run changed the database")
		}
		if !t.Failed() {
			there := s.there()
			if err := s.run(out, there); err != nil {
				t.Fail("dry-run", "the printed statements fail: %v\n%s", err, out)
			}
			for _, o := range w.objs {
				if there[o.key()] != o.keep {
					t.Fail("dry-run", "after the printed statements %s %s exists: %v", o.kind, o.name, there[o.key()])
				}
			}
		}
		s.Close()
		if !faults || t.Failed() {
			return
		}
		for _, dry := range []bool{false, true} {
			for _, mode := range []faultdb.Mode{faultdb.ErrBefore, faultdb.ErrAfter, faultdb.Crash} {
				for n := 0; ; n++ {
					s := start()
					var hit *faultdb.Op
					_, err := run(s, dry, func(op faultdb.Op) faultdb.Mode {
						if op.Seq == n {
							hit = &op
							return mode
						}
						return faultdb.OK
					})
					left, lost := s.left()
					same := len(s.there()) == full
					s.Close()
					if hit == nil {
						break
					}
					t.Nontrivial()
					where := fmt.Sprintf("%s at %s", mode, hit)
					took := mode == faultdb.ErrAfter && (hit.Kind == "commit" || w.dialect == "mysql")
					switch {
					case err == nil && hit.Kind != "rollback" && hit.Kind != "connect":
						t.Fail("failure-hidden", "%s: wipe (dry run %v) reports success, left: %v", where, dry, left)
					case err == nil && !dry && len(left) > 0:
						t.Fail("server-left", "%s: success reported but still there: %v", where, left)
					case err != nil && !same && !(took && len(left) == 0) && w.dialect != "mysql":
						t.Fail("not-atomic", "%s: wipe failed (%v) and changed the database, left: %v", where, err, left)
					case dry && !same:
						t.Fail("dry-run", "%s: the dry run changed the database", where)
					case len(lost) > 0:
						t.Fail("server-lost", "%s: dropped %v", where, lost)
					}
				}
			}
		}
	})
}

func wipeEmpty(dialect, version string) *wipeWorld {
	w := &wipeWorld{xWorld: xEmpty(dialect, version)}
	w.exts = nil
	if dialect == "postgres" {
		w.exts = []string{"plpgsql"}
	}
	return w
}

// wipeParts are the pieces a database is put together from.
func wipeParts(dialect string) []func(w *wipeWorld) {
	cur := xSchemas[dialect]
	tab := func(s string, n string) string { return wKey("table", s, n) }
	find := func(w *wipeWorld, schema int, name string) *xTable {
		for i := range w.schemas[schema].tables {
			if t := &w.schemas[schema].tables[i]; t.name == name {
				return t
			}
		}
		w.schemas[schema].tables = append(w.schemas[schema].tables, abc(dialect, name))
		return &w.schemas[schema].tables[len(w.schemas[schema].tables)-1]
	}
	fk := func(w *wipeWorld, schema int, name, con, refSchema, ref string) {
		t := find(w, schema, name)
		t.cons = append(t.cons, xFK(con, []string{"a"}, refSchema, ref, []string{"a"}))
	}
	view := func(w *wipeWorld, schema int, name string, materialized bool, on ...string) {
		s := &w.schemas[schema]
		s.views = append(s.views, xV(dialect, name, materialized, xInt(dialect)))
		w.depends(map[bool]string{true: "matview", false: "view"}[materialized], s.name, name, on...)
	}
	routine := func(w *wipeWorld, schema int, kind, name string, params ...[3]string) {
		w.schemas[schema].routines = append(w.schemas[schema].routines, xRout(dialect, kind, name, params...))
	}
	arg := func(typ string) [3]string { return [3]string{"IN", "x", typ} }
	parts := []func(w *wipeWorld){
		func(w *wipeWorld) { // a cycle and a self reference
			find(w, 0, "t")
			find(w, 0, "u")
			fk(w, 0, "t", "t_u", cur, "u")
			fk(w, 0, "u", "u_t", cur, "t")
			fk(w, 0, "u", "u_u", cur, "u")
		},
		func(w *wipeWorld) { // another schema
			find(w, 1, "t")
			fk(w, 1, "z", "z_t", "s2", "t")
			if dialect != "mysql" {
				find(w, 0, "t")
				fk(w, 0, "t", "t_s2", "s2", "t")
				fk(w, 1, "t", "s2_t", cur, "t")
			}
			view(w, 1, "v", false, tab("s2", "t"))
			routine(w, 1, "FUNCTION", "f", arg("int"))
		},
		func(w *wipeWorld) { // views on views, in both orders of their names
			find(w, 0, "t")
			view(w, 0, "m", false, tab(cur, "t"))
			view(w, 0, "a", false, tab(cur, "m"))
			view(w, 0, "z", false, tab(cur, "m"))
		},
		func(w *wipeWorld) { // routines, used by a view
			routine(w, 0, "FUNCTION", "f", arg("int"))
			view(w, 0, "fv", false, (&wObj{kind: "function", schema: cur, name: "f", args: map[string]string{"postgres": "x int", "mysql": "f"}[dialect]}).key())
		},
		func(w *wipeWorld) { // names
			n := map[string]string{"postgres": `Or"d.er;`, "mysql": "Or`d.er;", "sqlserver": "Or]d.er;"}[dialect]
			find(w, 0, n)
			find(w, 1, n)
			fk(w, 0, n, "k "+n, cur, n)
			view(w, 0, n+"v", false)
			routine(w, 0, "FUNCTION", n, arg("int"))
		},
		func(w *wipeWorld) { w.addSystem() },
	}
	if dialect != "postgres" {
		parts = append(parts, func(w *wipeWorld) { routine(w, 0, "PROCEDURE", "pr", arg("int")) })
	}
	if dialect == "mysql" {
		parts = append(parts, func(w *wipeWorld) { routine(w, 0, "PROCEDURE", "f"); routine(w, 0, "FUNCTION", "f") })
	}
	if dialect == "postgres" {
		parts = append(parts,
			func(w *wipeWorld) { // overloaded functions and the other kinds of routines
				routine(w, 0, "FUNCTION", "g")
				routine(w, 0, "FUNCTION", "g", arg("integer"))
				routine(w, 1, "FUNCTION", "g", arg("numeric(3,1)"), [3]string{"", "y", "text"})
				if w.major() >= 11 {
					routine(w, 0, "PROCEDURE", "pr", arg("int"))
					routine(w, 1, "PROCEDURE", "pr")
				}
			},
			func(w *wipeWorld) {
				routine(w, 0, "AGGREGATE", "agg", arg("integer"))
				routine(w, 1, "AGGREGATE", "cnt")
				routine(w, 0, "WINDOW", "win")
			},
			func(w *wipeWorld) { // materialized views
				find(w, 0, "t")
				view(w, 0, "mm", true, tab(cur, "t"))
				view(w, 0, "am", false, tab(cur, "mm"))
				view(w, 1, "zm", true, tab(cur, "am"))
				view(w, 1, "im", true, tab(cur, "t"))
			},
			func(w *wipeWorld) { // types
				s := &w.schemas[0]
				s.enums = append(s.enums, ddl.Enum{EnumName: "mood", EnumLabels: []string{"x", "y"}})
				s.domains = append(s.domains, xDomain{Domain: ddl.Domain{DomainName: "dom"}, base: xInt(dialect)})
				w.schemas[1].enums = append(w.schemas[1].enums, ddl.Enum{EnumName: "Mood", EnumLabels: []string{"x"}})
				w.schemas[1].domains = append(w.schemas[1].domains, xDomain{Domain: ddl.Domain{DomainName: "Dom"}, base: xInt(dialect)}, xDomain{Domain: ddl.Domain{DomainName: "own"}, base: xInt(dialect)})
				routine(w, 0, "FUNCTION", "h", arg("mood"))
				w.depends("domain", "s2", "Dom", wKey("enum", cur, "mood"))
				w.depends("function", cur, "h", wKey("enum", cur, "mood"))
			},
			func(w *wipeWorld) { // an extension with objects of every kind
				w.exts = append([]string{"hstore", "uuid-ossp"}, w.exts...)
				s := &w.schemas[0]
				x := abc(dialect, "spatial_ref_sys")
				x.extension = true
				v := xV(dialect, "stat_statements", false, xInt(dialect))
				v.extension = true
				y := xRout(dialect, "FUNCTION", "ext_fn", arg("text"))
				y.extension = true
				s.tables, s.views, s.routines = append(s.tables, x), append(s.views, v), append(s.routines, y)
				s.enums = append(s.enums, ddl.Enum{EnumName: "ext_enum", EnumLabels: []string{"q"}})
				s.domains = append(s.domains, xDomain{Domain: ddl.Domain{DomainName: "ext_dom"}, base: xInt(dialect)})
				s.extTypes = []string{"ext_enum", "ext_dom"}
				view(w, 0, "over_ext", false, tab(cur, "stat_statements"))
			},
		)
	}
	return parts
}

func runC15Servers(r *core.Runner) {
	for _, dialect := range []string{"postgres", "mysql", "sqlserver"} {
		for n, version := range xVersions[dialect] {
			parts := wipeParts(dialect)
			for m := 0; m < 1<<len(parts); m++ {
				few := bits.OnesCount(uint(m))
				edge := r.Thorough() || few <= 2 || few >= len(parts)-1
				if n > 0 && !edge && few != 3 {
					continue
				}
				w := wipeEmpty(dialect, version)
				for i, p := range parts {
					if m>>i&1 == 1 {
						p(w)
					}
				}
				wipeOther(r, fmt.Sprintf("%s/%s/parts %0*b", dialect, version, len(parts), m), w, n == 0 && edge)
			}
			if n > 0 {
				continue
			}
			names := []string{"a", "b", "c"}
			for m := 1; m < 1<<9; m++ {
				w := wipeEmpty(dialect, version)
				for i, name := range names {
					t := abc(dialect, name)
					for j, ref := range names {
						if m>>(3*i+j)&1 == 1 {
							t.cons = append(t.cons, xFK(fmt.Sprintf("%s_%s", name, ref), []string{"a"}, xSchemas[dialect], ref, []string{"a"}))
						}
					}
					w.schemas[0].tables = append(w.schemas[0].tables, t)
				}
				wipeOther(r, fmt.Sprintf("%s/%s/foreign keys %09b", dialect, version, m), w, false)
			}
		}
	}
	// SQL Server does not drop what a schema bound object refers to.
	for m := 0; m < 4; m++ {
		w := wipeEmpty("sqlserver", xVersions["sqlserver"][0])
		s := &w.schemas[0]
		s.tables = append(s.tables, abc("sqlserver", "t"))
		s.views = append(s.views, xV("sqlserver", "v", false, xInt("sqlserver")), xV("sqlserver", "w", false, xInt("sqlserver")))
		s.routines = append(s.routines, xRout("sqlserver", "FUNCTION", "f"))
		w.collect()
		w.depends("view", "dbo", "v", wKey("table", "dbo", "t"))
		if m&1 == 1 {
			w.depends("view", "dbo", "w", wKey("table", "dbo", "v"))
		} else {
			w.depends("view", "dbo", "v", wKey("table", "dbo", "w"))
		}
		if m&2 == 2 {
			w.depends("function", "dbo", "f", wKey("table", "dbo", "t"))
		}
		for _, o := range w.objs {
			o.bound = true
		}
		wipeOther(r, fmt.Sprintf("sqlserver/schema-bound-%02b", m), w, false)
	}
}
