package checks

import (
	"fmt"
	"sort"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

// A model of the schema of a Postgres, MySQL or SQL Server database and of what their
// DDL statements do to it. The rules are those of the manuals: which object has to exist,
// which name has to be free, which dependency makes a server refuse a statement.

type mCol struct {
	name, typ string
	notnull   bool
	def       string // as written in the catalog
	coll      string // "" is the default collation
	ident     string
	auto      bool
	loose     bool // the catalog does not mark an identity column as NOT NULL
	ignore    bool
	gen       string // the expression of a generated column
	stored    bool
	onupd     bool // ON UPDATE CURRENT_TIMESTAMP
}

type mCon struct {
	name, typ            string
	cols                 []string
	rschema, rtable      string
	rcols                []string
	upd, del             string
	deferrable, initdefd bool
	notvalid             bool
	expr                 string
	ignore               bool
	exOps                []string // the operators of an exclusion constraint
	exWhere              string
}

type mIdx struct {
	name     string
	unique   bool
	cols     []string // a leading "-" stands for DESC
	include  []string
	where    string
	using    string
	implicit bool // made by MySQL for a foreign key
	ignore   bool
}

type mTable struct {
	schema, name string
	cols         []*mCol
	cons         []*mCon
	idxs         []*mIdx
	ignore       bool
}

type mDB struct {
	dialect string
	cur     string // current schema
	coll    string // default collation
	version []int
	schemas []string
	tables  []*mTable
}

func (db *mDB) clone() *mDB {
	c := *db
	c.schemas = append([]string(nil), db.schemas...)
	c.tables = make([]*mTable, len(db.tables))
	for i, t := range db.tables {
		n := *t
		n.cols = make([]*mCol, len(t.cols))
		for j, x := range t.cols {
			y := *x
			n.cols[j] = &y
		}
		n.cons = make([]*mCon, len(t.cons))
		for j, x := range t.cons {
			y := *x
			y.cols = append([]string(nil), x.cols...)
			n.cons[j] = &y
		}
		n.idxs = make([]*mIdx, len(t.idxs))
		for j, x := range t.idxs {
			y := *x
			y.cols = append([]string(nil), x.cols...)
			n.idxs[j] = &y
		}
		c.tables[i] = &n
	}
	return &c
}

func (db *mDB) table(schema, name string) *mTable {
	for _, t := range db.tables {
		if t.schema == schema && t.name == name {
			return t
		}
	}
	return nil
}

func (t *mTable) col(name string) *mCol {
	for _, c := range t.cols {
		if c.name == name {
			return c
		}
	}
	return nil
}

func (t *mTable) con(name string) *mCon {
	for _, c := range t.cons {
		if c.name == name {
			return c
		}
	}
	return nil
}

func (t *mTable) idx(name string) *mIdx {
	for _, c := range t.idxs {
		if c.name == name {
			return c
		}
	}
	return nil
}

func (t *mTable) pkey() *mCon {
	for _, c := range t.cons {
		if c.typ == "PRIMARY KEY" {
			return c
		}
	}
	return nil
}

func without[V any](list []*V, x *V) []*V {
	var out []*V
	for _, y := range list {
		if y != x {
			out = append(out, y)
		}
	}
	return out
}

// referrers lists the foreign keys that reference t.
func (db *mDB) referrers(t *mTable) (out []*mCon, from []*mTable) {
	for _, u := range db.tables {
		for _, c := range u.cons {
			if c.typ == "FOREIGN KEY" && c.rschema == t.schema && c.rtable == t.name {
				out, from = append(out, c), append(from, u)
			}
		}
	}
	return out, from
}

var typeSynonyms = map[string]map[string]string{
	"postgres": {
		"INTEGER": "INT", "INT4": "INT", "INT8": "BIGINT", "INT2": "SMALLINT", "DECIMAL": "NUMERIC",
		"CHARACTER VARYING": "VARCHAR", "CHARACTER": "CHAR", "BOOL": "BOOLEAN", "FLOAT8": "DOUBLE PRECISION", "FLOAT4": "REAL",
		"TIMESTAMP WITHOUT TIME ZONE": "TIMESTAMP", "TIMESTAMP WITH TIME ZONE": "TIMESTAMPTZ",
		"TIME WITHOUT TIME ZONE": "TIME", "TIME WITH TIME ZONE": "TIMETZ",
	},
	"mysql":     {"INTEGER": "INT", "DECIMAL": "NUMERIC", "DEC": "NUMERIC", "BOOLEAN": "TINYINT(1)", "BOOL": "TINYINT(1)"},
	"sqlserver": {"INTEGER": "INT", "DECIMAL": "NUMERIC", "DEC": "NUMERIC", "CHARACTER VARYING": "VARCHAR", "CHARACTER": "CHAR"},
}

// canonType writes a type the way it is compared: synonyms resolved, no blanks around
// punctuation, everything but quoted labels in upper case.
func canonType(dialect, typ string) string {
	toks, err := lexSQL(dialect, typ)
	if err != nil {
		return "?" + typ
	}
	var name, args, suffix []string
	part := &name
	for _, t := range toks {
		switch {
		case t.kind == tOp && t.text == "(":
			part = &args
		case t.kind == tOp && t.text == ")":
			part = &suffix
		case t.kind == tString:
			*part = append(*part, "'"+t.text+"'")
		case t.kind == tIdent && part == &name:
			*part = append(*part, `"`+t.text+`"`)
		default:
			*part = append(*part, strings.ToUpper(t.text))
		}
	}
	// "TIMESTAMP (3) WITH TIME ZONE" is TIMESTAMPTZ(3), an array mark stays last.
	array := ""
	clean := func(words []string) []string {
		var out []string
		for _, w := range words {
			if w == "[" || w == "]" || w == "[]" {
				array = "[]"
				continue
			}
			out = append(out, w)
		}
		return out
	}
	n := strings.Join(append(clean(name), clean(suffix)...), " ")
	unsigned := ""
	if dialect == "mysql" {
		if strings.HasSuffix(n, " UNSIGNED") {
			n, unsigned = strings.TrimSuffix(n, " UNSIGNED"), " UNSIGNED"
		}
		n = strings.TrimSuffix(n, " SIGNED")
	}
	a := strings.Join(args, "")
	if s, ok := typeSynonyms[dialect][n]; ok {
		n = s
	}
	if i := strings.IndexByte(n, '('); i >= 0 {
		a = strings.Trim(n[i:], "()")
		n = n[:i]
	}
	switch {
	case dialect == "mysql" && (n == "INT" || n == "BIGINT" || n == "SMALLINT" || n == "MEDIUMINT"):
		a = "" // display width
	}
	if a != "" {
		n += "(" + a + ")"
	}
	return n + unsigned + array
}

// canonDefault writes a default so that texts a server treats alike compare equal.
func canonDefault(dialect, def string) string {
	toks, err := lexSQL(dialect, def)
	if err != nil {
		return "?" + def
	}
	if dialect == "postgres" {
		for i, t := range toks {
			if t.kind == tOp && t.text == ":" {
				toks = toks[:i]
				break
			}
		}
	}
	var parts []string
	for _, t := range toks {
		switch t.kind {
		case tString:
			parts = append(parts, "'"+t.text+"'")
		case tWord:
			parts = append(parts, strings.ToUpper(t.text))
		default:
			parts = append(parts, t.text)
		}
	}
	s := strings.Join(parts, " ")
	switch s {
	case "1", "TRUE":
		return "'1'"
	case "0", "FALSE":
		return "'0'"
	case "NOW ( )", "GETDATE ( )":
		return "CURRENT_TIMESTAMP"
	}
	return s
}

// facts lists what the database contains, one line per property of an object.
func (db *mDB) facts() []string {
	var out []string
	for _, s := range db.schemas {
		out = append(out, fmt.Sprintf("schema %q", s))
	}
	for _, t := range db.tables {
		id := fmt.Sprintf("%q.%q", t.schema, t.name)
		out = append(out, "table "+id)
		pk := t.pkey()
		for _, c := range t.cols {
			cid := fmt.Sprintf("column %s.%q", id, c.name)
			out = append(out, cid, cid+" type "+canonType(db.dialect, c.typ))
			if c.notnull || pk != nil && has(pk.cols, c.name) {
				out = append(out, cid+" not null")
			} else {
				out = append(out, cid+" null")
			}
			if c.def != "" {
				out = append(out, cid+" default "+canonDefault(db.dialect, c.def))
			}
			coll := c.coll
			if coll == "" {
				coll = db.coll
			}
			out = append(out, cid+" collate "+coll)
			if c.ident != "" {
				out = append(out, cid+" identity")
			}
			if c.auto {
				out = append(out, cid+" auto_increment")
			}
			if c.gen != "" {
				out = append(out, fmt.Sprintf("%s generated %s stored=%v", cid, c.gen, c.stored))
			}
			if c.onupd {
				out = append(out, cid+" on update")
			}
		}
		for _, c := range t.cons {
			x := fmt.Sprintf("constraint %s.%q %s %q", id, c.name, c.typ, c.cols)
			if c.typ == "FOREIGN KEY" {
				rule := func(s string) string {
					if s == "" {
						return "NO ACTION"
					}
					return s
				}
				x += fmt.Sprintf(" -> %q.%q %q update %s delete %s", c.rschema, c.rtable, c.rcols, rule(c.upd), rule(c.del))
			}
			x += fmt.Sprintf(" deferrable=%v deferred=%v notvalid=%v", c.deferrable, c.initdefd, c.notvalid)
			out = append(out, x+c.expr)
		}
		for _, x := range t.idxs {
			if x.implicit {
				continue
			}
			u := strings.ToUpper(x.using)
			if u == "BTREE" {
				u = ""
			}
			out = append(out, fmt.Sprintf("index %s.%q unique=%v %q include %q where %s using %s", id, x.name, x.unique, x.cols, x.include, canonDefault(db.dialect, x.where), u))
		}
	}
	sort.Strings(out)
	return out
}

// catalog writes the database as the catalog an introspection would give.
func (db *mDB) catalog() *ddl.Catalog {
	cat := &ddl.Catalog{Dialect: db.dialect, CurrentSchema: db.cur, DefaultCollation: db.coll, DefaultCollationValid: true, VersionNums: db.version}
	for _, s := range db.schemas {
		cat.Schemas = append(cat.Schemas, ddl.Schema{SchemaName: s})
	}
	for _, t := range db.tables {
		var schema *ddl.Schema
		for i := range cat.Schemas {
			if cat.Schemas[i].SchemaName == t.schema {
				schema = &cat.Schemas[i]
			}
		}
		tbl := ddl.Table{TableSchema: t.schema, TableName: t.name, Ignore: t.ignore}
		for _, c := range t.cols {
			col := ddl.Column{TableSchema: t.schema, TableName: t.name, ColumnName: c.name, ColumnType: c.typ, IsNotNull: c.notnull, ColumnDefault: c.def, CollationName: c.coll, ColumnIdentity: c.ident, IsAutoincrement: c.auto, Ignore: c.ignore}
			if c.loose {
				col.IsNotNull = false
			}
			col.IsEnum = db.dialect == "mysql" && strings.HasPrefix(strings.ToUpper(c.typ), "ENUM")
			for _, x := range t.cons {
				if len(x.cols) == 1 && x.cols[0] == c.name {
					col.IsPrimaryKey = col.IsPrimaryKey || x.typ == "PRIMARY KEY"
					col.IsUnique = col.IsUnique || x.typ == "UNIQUE"
				}
				if x.typ == "PRIMARY KEY" && has(x.cols, c.name) {
					col.IsNotNull = true
				}
			}
			tbl.Columns = append(tbl.Columns, col)
		}
		for _, c := range t.cons {
			tbl.Constraints = append(tbl.Constraints, ddl.Constraint{TableSchema: t.schema, TableName: t.name, ConstraintName: c.name, ConstraintType: c.typ, Columns: c.cols,
				ReferencesSchema: c.rschema, ReferencesTable: c.rtable, ReferencesColumns: c.rcols, UpdateRule: c.upd, DeleteRule: c.del, IsDeferrable: c.deferrable, IsInitiallyDeferred: c.initdefd, Ignore: c.ignore})
		}
		for _, x := range t.idxs {
			if x.implicit {
				continue
			}
			idx := ddl.Index{TableSchema: t.schema, TableName: t.name, IndexName: x.name, IndexType: x.using, IsUnique: x.unique, IncludeColumns: x.include, Predicate: x.where, Ignore: x.ignore}
			for _, c := range x.cols {
				idx.Columns = append(idx.Columns, strings.TrimPrefix(c, "-"))
				idx.Descending = append(idx.Descending, strings.HasPrefix(c, "-"))
			}
			tbl.Indexes = append(tbl.Indexes, idx)
		}
		schema.Tables = append(schema.Tables, tbl)
	}
	return cat
}

// ---- statements

// ddlParser walks over the tokens of one statement. Errors are raised by panicking with
// a refusal.
type ddlParser struct {
	db      *mDB
	toks    []token
	i       int
	txoff   bool
	nocheck bool // ALTER TABLE WITH NOCHECK
	// alterNames are the columns and indexes of one MySQL ALTER TABLE, checked at its end.
	after []func()
}

type refusal struct{ msg string }

func refuse(format string, args ...any) { panic(refusal{fmt.Sprintf(format, args...)}) }

func (p *ddlParser) peek(words ...string) bool {
	for k, w := range words {
		if p.i+k >= len(p.toks) {
			return false
		}
		t := p.toks[p.i+k]
		if t.kind == tWord && strings.EqualFold(t.text, w) || t.kind == tOp && t.text == w {
			continue
		}
		return false
	}
	return true
}

func (p *ddlParser) accept(words ...string) bool {
	if p.peek(words...) {
		p.i += len(words)
		return true
	}
	return false
}

func (p *ddlParser) expect(words ...string) {
	if !p.accept(words...) {
		refuse("syntax error at %s: expected %s", p.rest(), strings.Join(words, " "))
	}
}

func (p *ddlParser) rest() string {
	var b []string
	for k := p.i; k < len(p.toks) && k < p.i+6; k++ {
		b = append(b, p.toks[k].text)
	}
	if len(b) == 0 {
		return "end of statement"
	}
	return strings.Join(b, " ")
}

// joinSQL puts tokens together with blanks only where SQL is usually written with them.
func joinSQL(toks []string) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 {
			prev := toks[i-1]
			tight := strings.ContainsAny(prev[len(prev)-1:], "([:,") || strings.ContainsAny(t[:1], ")[],:")
			if t == "(" && strings.ContainsAny(strings.ToLower(prev[len(prev)-1:]), "abcdefghijklmnopqrstuvwxyz_") {
				tight = true
			}
			if !tight {
				b.WriteByte(' ')
			}
		}
		b.WriteString(t)
	}
	return b.String()
}

func (p *ddlParser) end() bool { return p.i >= len(p.toks) }

func (p *ddlParser) name() string {
	if p.end() {
		refuse("syntax error: name expected at the end")
	}
	v, ok := identifierValue(p.db.dialect, p.toks[p.i])
	if !ok {
		refuse("syntax error at %s: name expected", p.rest())
	}
	if v == "" {
		refuse("zero-length name")
	}
	p.i++
	return v
}

// qname reads [schema.]name. The schema is the current one if not given.
func (p *ddlParser) qname() (schema, name string) {
	name = p.name()
	schema = p.db.cur
	if p.accept(".") {
		schema, name = name, p.name()
	}
	if schema == "dbo" && p.db.cur == "" && p.db.dialect == "sqlserver" {
		schema = ""
	}
	if !has(p.db.schemas, schema) {
		refuse("schema %q does not exist", schema)
	}
	return schema, name
}

func (p *ddlParser) names() []string {
	p.expect("(")
	var out []string
	for {
		out = append(out, p.name())
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return out
}

func (p *ddlParser) tableRef() *mTable {
	schema, name := p.qname()
	t := p.db.table(schema, name)
	if t == nil {
		refuse("table %q.%q does not exist", schema, name)
	}
	return t
}

// text reads tokens up to one of the stop words outside brackets.
func (p *ddlParser) text(stops ...string) string {
	var b []string
	depth := 0
	for p.i < len(p.toks) {
		t := p.toks[p.i]
		if t.kind == tOp && t.text == ")" && depth == 0 {
			break
		}
		if depth == 0 && len(b) > 0 || depth == 0 && t.kind == tOp {
			stop := false
			for _, w := range stops {
				if t.kind == tOp && t.text == w || t.kind == tWord && strings.EqualFold(t.text, w) {
					stop = true
				}
			}
			if stop {
				break
			}
		}
		if t.kind == tOp && t.text == "(" {
			depth++
		}
		if t.kind == tOp && t.text == ")" {
			depth--
		}
		switch t.kind {
		case tString:
			b = append(b, "'"+strings.ReplaceAll(strings.ReplaceAll(t.text, `\`, slashes(p.db.dialect)), "'", "''")+"'")
		case tIdent:
			b = append(b, ddl.QuoteIdentifier(p.db.dialect, t.text))
		default:
			b = append(b, t.text)
		}
		p.i++
	}
	if len(b) == 0 {
		refuse("syntax error at %s: expression expected", p.rest())
	}
	return joinSQL(b)
}

func slashes(dialect string) string {
	if dialect == "mysql" {
		return `\\`
	}
	return `\`
}

var colStops = []string{",", "NOT", "NULL", "DEFAULT", "COLLATE", "GENERATED", "IDENTITY", "AUTO_INCREMENT", "ON", "UNIQUE", "PRIMARY", "AS", "REFERENCES", "CHECK", "CONSTRAINT"}

// columnDef reads a column definition.
func (p *ddlParser) columnDef() *mCol {
	c := &mCol{name: p.name()}
	if p.db.dialect != "sqlserver" || !p.peek("AS") {
		c.typ = p.text(colStops...)
	}
	nullSaid := false
	for !p.end() && !p.peek(",") && !p.peek(")") {
		switch {
		case p.accept("NOT", "NULL"):
			c.notnull = true
			nullSaid = true
		case p.accept("NULL"):
			if nullSaid {
				refuse("conflicting NULL/NOT NULL for column %q", c.name)
			}
		case p.accept("DEFAULT"):
			if c.def != "" {
				refuse("two defaults for column %q", c.name)
			}
			c.def = p.text(colStops...)
		case p.accept("COLLATE"):
			c.coll = p.name()
		case p.accept("AUTO_INCREMENT"):
			if p.db.dialect != "mysql" {
				refuse("syntax error at AUTO_INCREMENT")
			}
			c.auto = true
		case p.db.dialect == "mysql" && p.accept("ON", "UPDATE", "CURRENT_TIMESTAMP"):
			c.onupd = true
		case p.peek("GENERATED", "ALWAYS", "AS", "(") || p.db.dialect != "postgres" && p.peek("AS", "("):
			if p.accept("GENERATED", "ALWAYS") && p.db.dialect == "sqlserver" {
				refuse("syntax error at GENERATED")
			}
			if p.db.dialect == "mysql" && (nullSaid || c.def != "" || c.auto || c.onupd) {
				refuse("syntax error at AS: attributes before the expression of column %q", c.name)
			}
			p.expect("AS", "(")
			c.gen = p.text()
			p.expect(")")
			switch {
			case p.accept("STORED"):
				c.stored = p.db.dialect != "sqlserver"
			case p.accept("PERSISTED"):
				c.stored = p.db.dialect == "sqlserver"
			case p.db.dialect == "mysql":
				p.accept("VIRTUAL")
			case p.db.dialect == "postgres":
				refuse("syntax error at %s: STORED expected", p.rest())
			}
		case p.peek("GENERATED"):
			if p.db.dialect != "postgres" {
				refuse("syntax error at %s", p.rest())
			}
			c.ident = p.identity()
			c.notnull = true
		case p.accept("IDENTITY"):
			if p.db.dialect != "sqlserver" {
				refuse("syntax error at IDENTITY")
			}
			if p.accept("(") {
				p.text()
				p.expect(")")
			}
			c.ident = "IDENTITY"
			c.notnull = true
		default:
			refuse("syntax error at %s in definition of column %q", p.rest(), c.name)
		}
	}
	if c.ident != "" && c.def != "" {
		refuse("both default and identity for column %q", c.name)
	}
	if c.gen != "" && (c.ident != "" || c.def != "" || c.auto || c.onupd) {
		refuse("generated column %q with a default", c.name)
	}
	p.checkCollation(c)
	return c
}

func (p *ddlParser) checkCollation(c *mCol) {
	t := canonType(p.db.dialect, c.typ)
	if c.coll != "" && !strings.Contains(t, "CHAR") && !strings.Contains(t, "TEXT") && !strings.Contains(t, "ENUM") {
		refuse("type %s does not take a collation", t)
	}
}

func (p *ddlParser) identity() string {
	p.expect("GENERATED")
	if p.accept("BY", "DEFAULT", "AS", "IDENTITY") {
		return "GENERATED BY DEFAULT AS IDENTITY"
	}
	p.expect("ALWAYS", "AS", "IDENTITY")
	return "GENERATED ALWAYS AS IDENTITY"
}

func (p *ddlParser) deferrability(c *mCon) {
	for {
		switch {
		case p.accept("NOT", "DEFERRABLE"):
			c.deferrable = false
		case p.accept("DEFERRABLE"):
			c.deferrable = true
		case p.accept("INITIALLY", "DEFERRED"):
			c.initdefd = true
			c.deferrable = true
		case p.accept("INITIALLY", "IMMEDIATE"):
			c.initdefd = false
		default:
			if (c.deferrable || c.initdefd) && p.db.dialect != "postgres" {
				refuse("syntax error at DEFERRABLE")
			}
			return
		}
	}
}

func (p *ddlParser) rule() string {
	switch {
	case p.accept("NO", "ACTION"):
		return ""
	case p.accept("CASCADE"):
		return "CASCADE"
	case p.accept("RESTRICT"):
		return "RESTRICT"
	case p.accept("SET", "NULL"):
		return "SET NULL"
	case p.accept("SET", "DEFAULT"):
		return "SET DEFAULT"
	}
	refuse("syntax error at %s: action expected", p.rest())
	return ""
}

func (p *ddlParser) peekConstraint() bool {
	return p.peek("CONSTRAINT") || p.peek("PRIMARY", "KEY") || p.peek("UNIQUE", "(") || p.peek("FOREIGN", "KEY") || p.peek("CHECK") || p.peek("EXCLUDE")
}

// constraintDef reads a table constraint and adds it to the table.
func (p *ddlParser) constraintDef(t *mTable) {
	c := &mCon{}
	if p.accept("CONSTRAINT") {
		c.name = p.name()
	}
	using := false
	switch {
	case p.accept("PRIMARY", "KEY"):
		c.typ = "PRIMARY KEY"
		if p.db.dialect == "mysql" {
			c.name = "PRIMARY"
		}
	case p.accept("UNIQUE"):
		c.typ = "UNIQUE"
	case p.accept("FOREIGN", "KEY"):
		c.typ = "FOREIGN KEY"
	case p.accept("CHECK"):
		c.typ = "CHECK"
	case p.db.dialect == "postgres" && p.accept("EXCLUDE"):
		c.typ = "EXCLUDE"
	default:
		refuse("syntax error at %s: constraint expected", p.rest())
	}
	if c.name == "" {
		refuse("a constraint without a name on %q", t.name)
	}
	switch c.typ {
	case "CHECK":
		p.expect("(")
		c.expr = p.text()
		p.expect(")")
		toks, _ := lexSQL(p.db.dialect, c.expr)
		for len(toks) > 0 && (toks[0].text == "(" || len(toks) > 1 && toks[1].text == "(") {
			toks = toks[1:]
		}
		if len(toks) > 0 {
			if v, ok := identifierValue(p.db.dialect, toks[0]); !ok || t.col(v) == nil {
				refuse("check of %q names no column: %s", t.name, c.expr)
			}
		}
	case "EXCLUDE":
		c.expr = " using btree"
		if p.accept("USING") {
			c.expr = " using " + p.name()
		}
		p.expect("(")
		for {
			element := p.text("WITH")
			if toks, _ := lexSQL(p.db.dialect, element); len(toks) == 1 {
				v, ok := identifierValue(p.db.dialect, toks[0])
				if !ok || t.col(v) == nil {
					refuse("exclusion constraint of %q names no column: %s", t.name, element)
				}
				element = fmt.Sprintf("%q", v)
			}
			p.expect("WITH")
			c.expr += " " + element + " with " + strings.ReplaceAll(p.text(","), " ", "")
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
		if p.accept("WHERE") {
			p.expect("(")
			c.expr += " where " + p.text()
			p.expect(")")
		}
	default:
		if p.db.dialect == "postgres" && c.typ != "FOREIGN KEY" && p.accept("USING", "INDEX") {
			using = true
			name := p.name()
			x := t.idx(name)
			if x == nil {
				refuse("index %q of table %q does not exist", name, t.name)
			}
			if !x.unique || x.where != "" {
				refuse("index %q cannot back a constraint", name)
			}
			for _, col := range x.cols {
				if strings.HasPrefix(col, "-") {
					refuse("index %q has a descending column", name)
				}
			}
			c.cols = x.cols
			t.idxs = without(t.idxs, x)
			if name != c.name {
				c.expr = " backed by renamed index"
			}
		} else {
			c.cols = p.names()
		}
	}
	if c.typ == "FOREIGN KEY" {
		p.expect("REFERENCES")
		name := p.name()
		c.rschema, c.rtable = p.db.cur, name
		if p.db.dialect == "mysql" {
			c.rschema = t.schema // MySQL looks an unqualified table up in the schema of the child
		}
		if p.accept(".") {
			c.rschema, c.rtable = name, p.name()
		}
		c.rcols = p.names()
		for p.accept("ON") {
			if p.accept("UPDATE") {
				c.upd = p.rule()
			} else {
				p.expect("DELETE")
				c.del = p.rule()
			}
		}
	}
	p.deferrability(c)
	if p.accept("NOT", "VALID") {
		if p.db.dialect != "postgres" || c.typ != "FOREIGN KEY" && c.typ != "CHECK" {
			refuse("syntax error at NOT VALID")
		}
		c.notvalid = true
	}
	if p.nocheck && (c.typ == "FOREIGN KEY" || c.typ == "CHECK") {
		c.notvalid = true
	}
	p.addConstraint(t, c, using)
}

func (p *ddlParser) addConstraint(t *mTable, c *mCon, using bool) {
	db := p.db
	for _, col := range c.cols {
		if t.col(col) == nil {
			refuse("column %q of table %q does not exist", col, t.name)
		}
	}
	if t.con(c.name) != nil {
		refuse("constraint %q of table %q already exists", c.name, t.name)
	}
	switch db.dialect {
	case "postgres":
		if (c.typ == "PRIMARY KEY" || c.typ == "UNIQUE" || c.typ == "EXCLUDE") && !using {
			p.relationFree(t.schema, c.name)
		}
	case "mysql":
		if c.typ == "UNIQUE" || c.typ == "PRIMARY KEY" {
			if t.idx(c.name) != nil {
				refuse("duplicate key name %q", c.name)
			}
		}
		if c.typ == "FOREIGN KEY" {
			for _, u := range db.tables {
				if u.schema == t.schema {
					if x := u.con(c.name); x != nil && x.typ == "FOREIGN KEY" {
						refuse("duplicate foreign key name %q", c.name)
					}
				}
			}
		}
	case "sqlserver":
		p.mssqlNameFree(t.schema, c.name)
		if c.typ == "UNIQUE" || c.typ == "PRIMARY KEY" {
			if t.idx(c.name) != nil {
				refuse("an index %q already exists on %q", c.name, t.name)
			}
		}
	}
	if c.typ == "PRIMARY KEY" {
		if t.pkey() != nil {
			refuse("table %q already has a primary key", t.name)
		}
		for _, col := range c.cols {
			if !t.col(col).notnull {
				if db.dialect == "sqlserver" {
					refuse("primary key on nullable column %q of %q", col, t.name)
				}
				t.col(col).notnull = true
			}
		}
	}
	if c.typ == "FOREIGN KEY" {
		r := db.table(c.rschema, c.rtable)
		if r == nil {
			refuse("foreign key %q references missing table %q.%q", c.name, c.rschema, c.rtable)
		}
		if len(c.rcols) != len(c.cols) {
			refuse("foreign key %q has %d columns and references %d", c.name, len(c.cols), len(c.rcols))
		}
		for i, col := range c.rcols {
			rc := r.col(col)
			if rc == nil {
				refuse("foreign key %q references missing column %q", c.name, col)
			}
			if canonType(db.dialect, rc.typ) != canonType(db.dialect, t.col(c.cols[i]).typ) && db.dialect != "postgres" {
				refuse("foreign key %q: column %q is of type %s, the referenced column of type %s", c.name, c.cols[i], t.col(c.cols[i]).typ, rc.typ)
			}
		}
		if !db.backed(r, c.rcols) {
			refuse("foreign key %q references columns %q of %q without a key", c.name, c.rcols, r.name)
		}
		if db.dialect == "mysql" {
			t.cons = append(t.cons, c)
			db.implicitIndex(t, c)
			return
		}
	}
	t.cons = append(t.cons, c)
}

// backed reports whether the columns can be referenced by a foreign key.
func (db *mDB) backed(t *mTable, cols []string) bool {
	same := func(a []string) bool {
		if db.dialect == "mysql" {
			return len(a) >= len(cols) && strings.Join(a[:len(cols)], "\x00") == strings.Join(cols, "\x00")
		}
		if len(a) != len(cols) {
			return false
		}
		for _, x := range a {
			if !has(cols, x) {
				return false
			}
		}
		return true
	}
	for _, c := range t.cons {
		if (c.typ == "PRIMARY KEY" || c.typ == "UNIQUE") && same(c.cols) && !c.deferrable {
			return true
		}
	}
	for _, x := range t.idxs {
		plain := make([]string, len(x.cols))
		for i, c := range x.cols {
			plain[i] = strings.TrimPrefix(c, "-")
		}
		if (x.unique || db.dialect == "mysql") && x.where == "" && same(plain) {
			return true
		}
	}
	return false
}

// implicitIndex makes the index MySQL needs on the columns of a foreign key.
func (db *mDB) implicitIndex(t *mTable, c *mCon) {
	if !db.backed(t, c.cols) {
		t.idxs = append(t.idxs, &mIdx{name: c.name, cols: append([]string(nil), c.cols...), implicit: true})
	}
}

func (p *ddlParser) relationFree(schema, name string) {
	for _, t := range p.db.tables {
		if t.schema != schema {
			continue
		}
		if t.name == name {
			refuse("relation %q already exists", name)
		}
		for _, x := range t.idxs {
			if x.name == name {
				refuse("relation %q already exists", name)
			}
		}
		for _, c := range t.cons {
			if c.name == name && (c.typ == "PRIMARY KEY" || c.typ == "UNIQUE") {
				refuse("relation %q already exists", name)
			}
		}
	}
}

func (p *ddlParser) mssqlNameFree(schema, name string) {
	for _, t := range p.db.tables {
		if t.schema != schema {
			continue
		}
		if t.name == name || t.con(name) != nil {
			refuse("there is already an object named %q", name)
		}
	}
}

// statement executes one statement.
func (p *ddlParser) statement() {
	db := p.db
	switch {
	case p.accept("CREATE", "SCHEMA"):
		ifnot := p.accept("IF", "NOT", "EXISTS")
		s := p.name()
		if has(db.schemas, s) {
			if !ifnot {
				refuse("schema %q already exists", s)
			}
		} else {
			db.schemas = append(db.schemas, s)
		}
	case p.accept("DROP", "SCHEMA"):
		p.dropSchema()
	case p.accept("CREATE", "TABLE"):
		p.createTable()
	case p.accept("DROP", "TABLE"):
		ifexists := p.accept("IF", "EXISTS")
		name := p.name()
		schema := db.cur
		if p.accept(".") {
			schema, name = name, p.name()
		}
		t := db.table(schema, name)
		if t == nil {
			if !ifexists {
				refuse("table %q.%q does not exist", schema, name)
			}
			break
		}
		_, from := db.referrers(t)
		for _, u := range from {
			if u != t {
				refuse("table %q is referenced by %q", t.name, u.name)
			}
		}
		db.tables = without(db.tables, t)
	case p.peek("CREATE", "UNIQUE", "INDEX"), p.peek("CREATE", "INDEX"), p.peek("CREATE", "FULLTEXT", "INDEX"), p.peek("CREATE", "SPATIAL", "INDEX"):
		p.i++
		x, conc := p.indexHead()
		p.expect("ON")
		t := p.tableRef()
		p.indexBody(x)
		p.addIndex(t, x)
		if conc && !p.txoff {
			refuse("CREATE INDEX CONCURRENTLY inside a transaction")
		}
	case p.accept("DROP", "INDEX"):
		p.dropIndex()
	case p.accept("ALTER", "TABLE"):
		p.alterTable()
	default:
		refuse("statement not understood: %s", p.rest())
	}
	if !p.end() {
		refuse("syntax error at %s", p.rest())
	}
}

func (p *ddlParser) dropSchema() {
	db := p.db
	if p.accept("IF", "EXISTS") && !p.end() {
		if v, ok := identifierValue(db.dialect, p.toks[p.i]); ok && !has(db.schemas, v) {
			p.i++
			p.accept("CASCADE")
			return
		}
	}
	s := p.name()
	if !has(db.schemas, s) {
		refuse("schema %q does not exist", s)
	}
	cascade := p.accept("CASCADE")
	if cascade && db.dialect != "postgres" {
		refuse("syntax error at CASCADE")
	}
	for _, t := range append([]*mTable(nil), db.tables...) {
		if t.schema != s {
			continue
		}
		if db.dialect == "sqlserver" || db.dialect == "postgres" && !cascade {
			refuse("schema %q is not empty", s)
		}
		fks, from := db.referrers(t)
		for i, fk := range fks {
			if from[i].schema == s {
				continue
			}
			if db.dialect == "mysql" {
				refuse("table %q is referenced by %q", t.name, from[i].name)
			}
			from[i].cons = without(from[i].cons, fk)
		}
		db.tables = without(db.tables, t)
	}
	var left []string
	for _, x := range db.schemas {
		if x != s {
			left = append(left, x)
		}
	}
	db.schemas = left
}

func (p *ddlParser) createTable() {
	schema, name := p.qname()
	if p.db.table(schema, name) != nil {
		refuse("table %q.%q already exists", schema, name)
	}
	switch p.db.dialect {
	case "postgres":
		p.relationFree(schema, name)
	case "sqlserver":
		p.mssqlNameFree(schema, name)
	}
	t := &mTable{schema: schema, name: name}
	p.db.tables = append(p.db.tables, t)
	p.expect("(")
	for {
		if p.peekConstraint() {
			p.constraintDef(t)
		} else {
			c := p.columnDef()
			if t.col(c.name) != nil {
				refuse("column %q twice", c.name)
			}
			t.cols = append(t.cols, c)
		}
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	if len(t.cols) == 0 {
		refuse("table %q without columns", name)
	}
	p.checkAuto(t)
}

// checkAuto applies MySQL's rule that an AUTO_INCREMENT column leads some key.
func (p *ddlParser) checkAuto(t *mTable) {
	if p.db.dialect != "mysql" {
		return
	}
	n := 0
	for _, c := range t.cols {
		if c.auto {
			n++
			if !p.db.backed(t, []string{c.name}) {
				refuse("auto column %q of %q is not a key", c.name, t.name)
			}
		}
	}
	if n > 1 {
		refuse("two auto columns in %q", t.name)
	}
}

func (p *ddlParser) indexHead() (x *mIdx, concurrently bool) {
	x = &mIdx{}
	if p.accept("UNIQUE") {
		x.unique = true
	} else if p.peek("FULLTEXT") || p.peek("SPATIAL") {
		if p.db.dialect != "mysql" {
			refuse("syntax error at %s", p.rest())
		}
		x.using = p.toks[p.i].text
		p.i++
	}
	p.expect("INDEX")
	if p.accept("CONCURRENTLY") {
		if p.db.dialect != "postgres" {
			refuse("syntax error at CONCURRENTLY")
		}
		concurrently = true
	}
	x.name = p.name()
	if p.db.dialect == "mysql" && p.accept("USING") {
		x.using = p.name()
	}
	return x, concurrently
}

func (p *ddlParser) indexBody(x *mIdx) {
	if p.db.dialect == "postgres" && p.accept("USING") {
		x.using = p.name()
	}
	p.expect("(")
	for {
		c := p.name()
		if p.accept("DESC") {
			c = "-" + c
		} else {
			p.accept("ASC")
		}
		x.cols = append(x.cols, c)
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	if p.accept("INCLUDE") {
		if p.db.dialect == "mysql" {
			refuse("syntax error at INCLUDE")
		}
		x.include = p.names()
	}
	if p.accept("WHERE") {
		if p.db.dialect == "mysql" {
			refuse("syntax error at WHERE")
		}
		x.where = p.text(";")
	}
}

func (p *ddlParser) addIndex(t *mTable, x *mIdx) {
	for _, c := range append(append([]string(nil), x.cols...), x.include...) {
		if t.col(strings.TrimPrefix(c, "-")) == nil {
			refuse("index %q: column %q of table %q does not exist", x.name, c, t.name)
		}
	}
	switch p.db.dialect {
	case "postgres":
		p.relationFree(t.schema, x.name)
	case "mysql":
		if y := t.idx(x.name); y != nil && !y.implicit || t.con(x.name) != nil && t.con(x.name).typ == "UNIQUE" {
			refuse("duplicate key name %q", x.name)
		}
		// An implicit index goes when an explicit one takes its place.
		for _, y := range append([]*mIdx(nil), t.idxs...) {
			if y.implicit && len(x.cols) >= len(y.cols) && strings.Join(x.cols[:len(y.cols)], "\x00") == strings.Join(y.cols, "\x00") {
				t.idxs = without(t.idxs, y)
			}
		}
	default:
		if t.idx(x.name) != nil || t.con(x.name) != nil && t.con(x.name).typ != "FOREIGN KEY" {
			refuse("an index %q already exists on %q", x.name, t.name)
		}
	}
	t.idxs = append(t.idxs, x)
}

func (p *ddlParser) dropIndex() {
	db := p.db
	ifexists := p.accept("IF", "EXISTS")
	if db.dialect == "sqlserver" {
		name := p.name()
		p.expect("ON")
		t := p.tableRef()
		x := t.idx(name)
		if x == nil {
			if ifexists {
				return
			}
			refuse("index %q of %q does not exist", name, t.name)
		}
		t.idxs = without(t.idxs, x)
		if fks, _ := db.referrers(t); len(fks) > 0 {
			for _, fk := range fks {
				if !db.backed(t, fk.rcols) {
					refuse("index %q is needed by foreign key %q", name, fk.name)
				}
			}
		}
		return
	}
	if db.dialect == "mysql" {
		refuse("syntax error: DROP INDEX without ON")
	}
	p.accept("CONCURRENTLY")
	name := p.name()
	schema := db.cur
	if p.accept(".") {
		schema, name = name, p.name()
	}
	for _, t := range db.tables {
		if t.schema != schema {
			continue
		}
		if x := t.idx(name); x != nil {
			t.idxs = without(t.idxs, x)
			fks, _ := db.referrers(t)
			for _, fk := range fks {
				if !db.backed(t, fk.rcols) {
					refuse("index %q is needed by foreign key %q", name, fk.name)
				}
			}
			return
		}
		if c := t.con(name); c != nil && (c.typ == "PRIMARY KEY" || c.typ == "UNIQUE") {
			refuse("index %q belongs to a constraint", name)
		}
	}
	if !ifexists {
		refuse("index %q does not exist", name)
	}
}

func (p *ddlParser) alterTable() {
	db := p.db
	t := p.tableRef()
	p.after = nil
	p.nocheck = false
	if db.dialect == "sqlserver" && p.accept("WITH") {
		p.nocheck = p.accept("NOCHECK")
		if !p.nocheck {
			p.expect("CHECK")
		}
		if !p.peek("ADD") {
			refuse("syntax error at %s", p.rest())
		}
	}
	for n := 0; ; n++ {
		if n > 0 && db.dialect == "sqlserver" {
			refuse("syntax error at ,")
		}
		p.alterAction(t)
		if !p.accept(",") {
			break
		}
	}
	for _, f := range p.after {
		f()
	}
	p.checkAuto(t)
}

func (p *ddlParser) alterAction(t *mTable) {
	db := p.db
	mysql, pg, ms := db.dialect == "mysql", db.dialect == "postgres", db.dialect == "sqlserver"
	switch {
	case p.accept("ADD"):
		switch {
		case ms && p.accept("DEFAULT"):
			def := p.text("FOR")
			p.expect("FOR")
			c := p.columnOf(t)
			if c.def != "" {
				refuse("column %q already has a default", c.name)
			}
			if c.ident != "" {
				refuse("default on identity column %q", c.name)
			}
			c.def = def
		case p.peekConstraint() && !p.peek("UNIQUE", "INDEX"):
			p.constraintDef(t)
		case mysql && (p.peek("INDEX") || p.peek("UNIQUE", "INDEX") || p.peek("FULLTEXT", "INDEX") || p.peek("SPATIAL", "INDEX")):
			x, _ := p.indexHead()
			p.indexBody(x)
			p.addIndex(t, x)
		default:
			if ms && p.peek("COLUMN") {
				refuse("syntax error at COLUMN")
			}
			p.accept("COLUMN")
			c := p.columnDef()
			if t.col(c.name) != nil {
				refuse("column %q of %q already exists", c.name, t.name)
			}
			t.cols = append(t.cols, c)
		}
	case p.accept("DROP", "CONSTRAINT"):
		ifexists := p.accept("IF", "EXISTS")
		if ifexists && mysql {
			refuse("syntax error at IF EXISTS")
		}
		p.dropConstraint(t, p.name(), ifexists)
	case mysql && p.accept("DROP", "FOREIGN", "KEY"):
		p.dropConstraint(t, p.name(), false)
	case mysql && p.accept("DROP", "PRIMARY", "KEY"):
		p.dropConstraint(t, "PRIMARY", false)
	case mysql && p.accept("DROP", "INDEX"):
		name := p.name()
		x := t.idx(name)
		if x == nil {
			if c := t.con(name); c != nil && c.typ != "FOREIGN KEY" {
				p.dropConstraint(t, name, false)
				return
			}
			refuse("index %q of %q does not exist", name, t.name)
		}
		t.idxs = without(t.idxs, x)
		p.checkNeeded(t, "index "+name)
	case p.accept("DROP", "COLUMN"):
		ifexists := p.accept("IF", "EXISTS")
		if ifexists && mysql {
			refuse("syntax error at IF EXISTS")
		}
		name := p.name()
		c := t.col(name)
		if c == nil {
			if ifexists {
				return
			}
			refuse("column %q of %q does not exist", name, t.name)
		}
		p.dropColumn(t, c)
	case mysql && p.accept("MODIFY"):
		p.accept("COLUMN")
		c := p.columnDef()
		old := t.col(c.name)
		if old == nil {
			refuse("column %q of %q does not exist", c.name, t.name)
		}
		if canonType(db.dialect, old.typ) != canonType(db.dialect, c.typ) {
			for _, k := range t.cons {
				if k.typ == "FOREIGN KEY" && has(k.cols, c.name) {
					refuse("cannot change column %q: used in foreign key %q", c.name, k.name)
				}
			}
			fks, _ := db.referrers(t)
			for _, fk := range fks {
				if has(fk.rcols, c.name) {
					refuse("cannot change column %q: used in foreign key %q", c.name, fk.name)
				}
			}
		}
		*old = *c
		p.after = append(p.after, func() {
			if pk := t.pkey(); pk != nil && has(pk.cols, old.name) {
				old.notnull = true
			}
		})
	case pg && p.accept("ALTER", "CONSTRAINT"):
		name := p.name()
		k := t.con(name)
		if k == nil {
			refuse("constraint %q of %q does not exist", name, t.name)
		}
		if k.typ != "FOREIGN KEY" {
			refuse("constraint %q is not a foreign key", name)
		}
		k.deferrable, k.initdefd = false, false
		p.deferrability(k)
	case pg && p.accept("VALIDATE", "CONSTRAINT"):
		name := p.name()
		k := t.con(name)
		if k == nil {
			refuse("constraint %q of %q does not exist", name, t.name)
		}
		k.notvalid = false
	case p.accept("ALTER", "COLUMN"):
		if mysql {
			refuse("syntax error at ALTER COLUMN")
		}
		c := p.columnOf(t)
		if ms {
			p.alterColumnMS(t, c)
		} else {
			p.alterColumnPG(t, c)
		}
	default:
		refuse("ALTER TABLE action not understood: %s", p.rest())
	}
}

func (p *ddlParser) columnOf(t *mTable) *mCol {
	name := p.name()
	c := t.col(name)
	if c == nil {
		refuse("column %q of %q does not exist", name, t.name)
	}
	return c
}

func (p *ddlParser) dropConstraint(t *mTable, name string, ifexists bool) {
	if ti, ci, ok := defaultName(name); ok && p.db.dialect == "sqlserver" {
		if p.db.tables[ti] != t {
			refuse("default constraint %q is not of %q", name, t.name)
		}
		t.cols[ci].def = ""
		return
	}
	k := t.con(name)
	if k == nil {
		if ifexists {
			return
		}
		refuse("constraint %q of %q does not exist", name, t.name)
	}
	t.cons = without(t.cons, k)
	if k.typ == "PRIMARY KEY" || k.typ == "UNIQUE" {
		p.checkNeeded(t, "constraint "+name)
	}
}

// checkNeeded refuses to take away what a foreign key needs. In MySQL the whole
// statement counts.
func (p *ddlParser) checkNeeded(t *mTable, what string) {
	db := p.db
	check := func() {
		fks, _ := db.referrers(t)
		for _, fk := range fks {
			if !db.backed(t, fk.rcols) {
				refuse("%s of %q is needed by foreign key %q", what, t.name, fk.name)
			}
		}
		if db.dialect == "mysql" {
			for _, k := range t.cons {
				if k.typ == "FOREIGN KEY" && !db.backed(t, k.cols) {
					refuse("%s of %q is needed by foreign key %q", what, t.name, k.name)
				}
			}
		}
	}
	if db.dialect == "mysql" {
		p.after = append(p.after, check)
		return
	}
	check()
}

func (p *ddlParser) dropColumn(t *mTable, c *mCol) {
	db := p.db
	fks, _ := db.referrers(t)
	for _, fk := range fks {
		if has(fk.rcols, c.name) {
			refuse("column %q of %q is referenced by foreign key %q", c.name, t.name, fk.name)
		}
	}
	uses := func(x *mIdx) bool {
		return has(x.cols, c.name) || has(x.cols, "-"+c.name) || has(x.include, c.name) || x.where != "" && strings.Contains(x.where, c.name)
	}
	switch db.dialect {
	case "postgres":
		for _, k := range append([]*mCon(nil), t.cons...) {
			if has(k.cols, c.name) {
				t.cons = without(t.cons, k)
			}
		}
		for _, x := range append([]*mIdx(nil), t.idxs...) {
			if uses(x) {
				t.idxs = without(t.idxs, x)
			}
		}
	case "mysql":
		cut := func(cols []string) []string {
			var out []string
			for _, x := range cols {
				if strings.TrimPrefix(x, "-") != c.name {
					out = append(out, x)
				}
			}
			return out
		}
		for _, k := range append([]*mCon(nil), t.cons...) {
			if k.typ == "FOREIGN KEY" && has(k.cols, c.name) {
				refuse("column %q of %q is used in foreign key %q", c.name, t.name, k.name)
			}
			if k.cols = cut(k.cols); len(k.cols) == 0 && k.typ != "CHECK" {
				t.cons = without(t.cons, k)
			}
		}
		for _, x := range append([]*mIdx(nil), t.idxs...) {
			if x.cols = cut(x.cols); len(x.cols) == 0 {
				t.idxs = without(t.idxs, x)
			}
		}
	default:
		for _, k := range t.cons {
			if has(k.cols, c.name) {
				refuse("column %q of %q is used by constraint %q", c.name, t.name, k.name)
			}
		}
		for _, x := range t.idxs {
			if uses(x) {
				refuse("column %q of %q is used by index %q", c.name, t.name, x.name)
			}
		}
		if c.def != "" {
			refuse("column %q of %q is used by its default constraint", c.name, t.name)
		}
	}
	t.cols = without(t.cols, c)
	if len(t.cols) == 0 && db.dialect != "postgres" {
		p.after = append(p.after, func() {
			if len(t.cols) == 0 {
				refuse("dropping every column of %q", t.name)
			}
		})
	}
}

func (p *ddlParser) alterColumnPG(t *mTable, c *mCol) {
	pk := t.pkey()
	switch {
	case p.accept("TYPE") || p.accept("SET", "DATA", "TYPE"):
		c.typ = p.text("COLLATE", ",", "USING")
		c.coll = ""
		if p.accept("COLLATE") {
			c.coll = p.name()
		}
		p.checkCollation(c)
	case p.accept("SET", "DEFAULT"):
		if c.ident != "" {
			refuse("column %q is an identity column", c.name)
		}
		c.def = p.text(",")
	case p.accept("DROP", "DEFAULT"):
		if c.ident != "" {
			refuse("column %q is an identity column", c.name)
		}
		c.def = ""
	case p.accept("SET", "NOT", "NULL"):
		c.notnull = true
	case p.accept("DROP", "NOT", "NULL"):
		if pk != nil && has(pk.cols, c.name) {
			refuse("column %q is in a primary key", c.name)
		}
		if c.ident != "" {
			refuse("column %q is an identity column", c.name)
		}
		c.notnull = false
	case p.accept("DROP", "IDENTITY"):
		ifexists := p.accept("IF", "EXISTS")
		if c.ident == "" && !ifexists {
			refuse("column %q is not an identity column", c.name)
		}
		c.ident = ""
	case p.accept("ADD"):
		ident := p.identity()
		if !c.notnull {
			refuse("column %q must be NOT NULL before identity can be added", c.name)
		}
		if c.def != "" {
			refuse("column %q already has a default value", c.name)
		}
		if c.ident != "" {
			refuse("column %q is already an identity column", c.name)
		}
		c.ident = ident
	default:
		refuse("ALTER COLUMN action not understood: %s", p.rest())
	}
}

func (p *ddlParser) alterColumnMS(t *mTable, c *mCol) {
	old := *c
	c.typ = p.text("COLLATE", "NULL", "NOT", ",")
	c.coll = ""
	if p.accept("COLLATE") {
		c.coll = p.name()
	}
	c.notnull = false
	if p.accept("NOT", "NULL") {
		c.notnull = true
	} else {
		p.accept("NULL")
	}
	p.checkCollation(c)
	db := p.db
	for _, x := range t.idxs {
		if has(x.cols, c.name) || has(x.cols, "-"+c.name) || has(x.include, c.name) {
			refuse("column %q of %q is used by index %q", c.name, t.name, x.name)
		}
	}
	for _, k := range t.cons {
		if has(k.cols, c.name) {
			refuse("column %q of %q is used by constraint %q", c.name, t.name, k.name)
		}
	}
	fks, _ := db.referrers(t)
	for _, fk := range fks {
		if has(fk.rcols, c.name) {
			refuse("column %q of %q is referenced by foreign key %q", c.name, t.name, fk.name)
		}
	}
	if old.ident != "" && !c.notnull {
		refuse("identity column %q cannot be nullable", c.name)
	}
	base := func(typ string) string {
		s, _, _ := strings.Cut(canonType(db.dialect, typ), "(")
		return s
	}
	if old.def != "" && base(old.typ) != base(c.typ) {
		refuse("column %q of %q is used by its default constraint", c.name, t.name)
	}
}

func defaultName(name string) (ti, ci int, ok bool) {
	n, _ := fmt.Sscanf(name, "DF__%d__%d", &ti, &ci)
	return ti, ci, n == 2
}

// ---- scripts

// splitStatements cuts the tokens of a script at the semicolons. A SQL Server block
// stays in one piece.
func splitStatements(toks []token) [][]token {
	var out [][]token
	var cur []token
	depth := 0
	for _, t := range toks {
		if t.kind == tWord && strings.EqualFold(t.text, "BEGIN") {
			depth++
		}
		if t.kind == tWord && strings.EqualFold(t.text, "END") && depth > 0 {
			depth--
		}
		if t.kind == tOp && t.text == ";" && depth == 0 {
			if len(cur) > 0 {
				out = append(out, cur)
			}
			cur = nil
			continue
		}
		cur = append(cur, t)
	}
	if len(cur) > 0 {
		out = append(out, cur)
	}
	return out
}

// runStatement executes one statement on a copy of db; db itself stays as it was.
func (db *mDB) runStatement(toks []token, txoff bool, vars map[string]bool) (next *mDB, err error) {
	next = db.clone()
	defer func() {
		if r := recover(); r != nil {
			if x, ok := r.(refusal); ok {
				err = fmt.Errorf("%s", x.msg)
				return
			}
			panic(r)
		}
	}()
	p := &ddlParser{db: next, toks: toks, txoff: txoff}
	if db.dialect == "sqlserver" && (p.peek("IF") || p.peek("BEGIN") || p.peek("EXEC") || p.peek("DECLARE")) {
		p.batch(vars)
		return next, nil
	}
	p.statement()
	return next, nil
}

// batch executes the procedural statements of SQL Server migrations.
func (p *ddlParser) batch(vars map[string]bool) {
	vals := map[string]*string{}
	var run func(until string)
	one := func(skip bool) {
		switch {
		case p.accept("BEGIN"):
			run("END")
			p.expect("END")
		case p.accept("DECLARE"):
			name := strings.ToLower(p.param())
			p.text(";", "=")
			if vars[name] {
				refuse("variable %s has already been declared", name)
			}
			vars[name] = true
		case p.accept("SELECT"):
			name := strings.ToLower(p.param())
			if !vars[name] {
				refuse("variable %s is not declared", name)
			}
			p.expect("=")
			from := p.i
			depth := 0
			for !p.end() {
				if p.peek("(") {
					depth++
				}
				if p.peek(")") {
					depth--
				}
				if depth == 0 && p.peek(";") {
					break
				}
				p.i++
			}
			rows := sysQuery(p.db, p.toks[from:p.i])
			if len(rows) > 1 {
				refuse("ambiguous: the query for %s returns %d rows", name, len(rows))
			}
			if len(rows) == 1 {
				vals[name] = &rows[0]
			}
		case p.accept("EXEC"):
			p.expect("(")
			text, null := "", false
			for {
				t := p.toks[p.i]
				switch {
				case t.kind == tString:
					text += t.text
				case t.kind == tParam:
					v := vals[strings.ToLower(t.text)]
					if v == nil {
						null = true
					} else {
						text += *v
					}
				case t.kind == tWord && strings.EqualFold(t.text, "QUOTENAME"):
					p.i++
					p.expect("(")
					if v := vals[strings.ToLower(p.toks[p.i].text)]; v == nil {
						null = true
					} else {
						text += "[" + strings.ReplaceAll(*v, "]", "]]") + "]"
					}
					if !(p.i+1 < len(p.toks) && p.toks[p.i+1].text == ")") {
						refuse("syntax error at %s", p.rest())
					}
					p.i++
				default:
					refuse("syntax error at %s", p.rest())
				}
				p.i++
				if !p.accept("+") {
					break
				}
			}
			p.expect(")")
			if null || skip {
				return
			}
			toks, err := lexSQL(p.db.dialect, text)
			if err != nil {
				refuse("%v in %s", err, text)
			}
			for _, st := range splitStatements(toks) {
				q := &ddlParser{db: p.db, toks: st}
				q.statement()
			}
		default:
			refuse("statement not understood: %s", p.rest())
		}
	}
	run = func(until string) {
		for !p.end() && (until == "" || !p.peek(until)) {
			if p.accept(";") {
				continue
			}
			if p.accept("IF", "SCHEMA_ID") {
				p.expect("(")
				name := p.toks[p.i].text
				if p.toks[p.i].kind != tString {
					refuse("syntax error at %s", p.rest())
				}
				p.i++
				p.expect(")", "IS", "NULL")
				one(has(p.db.schemas, name))
				continue
			}
			one(false)
		}
	}
	run("")
}

func (p *ddlParser) param() string {
	if p.end() || p.toks[p.i].kind != tParam {
		refuse("syntax error at %s: variable expected", p.rest())
	}
	p.i++
	return p.toks[p.i-1].text
}
