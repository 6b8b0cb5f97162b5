package checks

import (
	"fmt"
	"sort"
	"strings"
	"unicode"

	"verifmc/faultdb"
)

// The schema grammar shared by the checks about schemas: a small description of tables
// that can be written as SQLite DDL in several styles or as Go table structs, and an
// independent reading ("shape") of what a SQLite database really holds.

type sCol struct {
	name    string
	typ     string
	notNull bool
	dflt    string // SQL text, expressions in brackets
	gen     string // generation expression
	stored  bool
	collate string
	short   bool // write "AS (...)" without GENERATED ALWAYS
}

type sFK struct {
	cols    []string
	ref     string
	refCols []string
	upd     string
	del     string
	defer_  bool
}

type sIdx struct {
	name   string
	cols   []string // a column name or an expression in brackets
	unique bool
	desc   bool
	where  string
}

type sTable struct {
	name    string
	cols    []sCol
	pk      []string
	auto    bool
	uniques [][]string
	fks     []sFK
	checks  []string
	idx     []sIdx
	suffix  string   // "STRICT", "WITHOUT ROWID"
	extra   []string // further statements (triggers)
}

type sSchema struct {
	tables []sTable
	views  []string
}

// style is a way of writing the same table.
type style int

const (
	styleInline  style = iota // single column constraints at the column, bare names where possible
	styleTable                // every constraint at the table and named, names quoted
	styleForeign              // lower case, names in brackets or backticks
	numStyles
)

var bareName = func(s string) bool {
	for i, r := range s {
		if !(r == '_' || r >= 'a' && r <= 'z' || i > 0 && r >= '0' && r <= '9') {
			return false
		}
	}
	switch s {
	case "", "order", "select", "group", "table", "index", "check", "default", "values":
		return false
	}
	return true
}

func (st style) id(name string) string {
	switch {
	case st == styleInline && bareName(name):
		return name
	case st == styleForeign && !strings.ContainsAny(name, "]"):
		return "[" + name + "]"
	}
	return qid(name)
}

func (st style) ids(names []string) string {
	out := make([]string, len(names))
	for i, n := range names {
		out[i] = st.id(n)
	}
	return strings.Join(out, ", ")
}

func (st style) kw(s string) string {
	if st == styleForeign {
		return strings.ToLower(s)
	}
	return s
}

func (f sFK) clause(st style) string {
	s := st.kw("REFERENCES ") + st.id(f.ref)
	if len(f.refCols) > 0 {
		s += " (" + st.ids(f.refCols) + ")"
	}
	if f.upd != "" {
		s += st.kw(" ON UPDATE " + f.upd)
	}
	if f.del != "" {
		s += st.kw(" ON DELETE " + f.del)
	}
	if f.defer_ {
		s += st.kw(" DEFERRABLE INITIALLY DEFERRED")
	}
	return s
}

func (t sTable) ddl(st style) []string {
	var parts []string
	pkDone := false
	inlineU, inlineF := map[string]bool{}, map[string]int{}
	if st != styleTable {
		for _, u := range t.uniques {
			if len(u) == 1 {
				inlineU[u[0]] = true
			}
		}
		for i, f := range t.fks {
			if _, dup := inlineF[f.cols[0]]; len(f.cols) == 1 && !dup {
				inlineF[f.cols[0]] = i
			}
		}
	}
	usedF := map[int]bool{}
	for _, c := range t.cols {
		s := st.id(c.name)
		if c.typ != "" {
			s += " " + st.kw(c.typ)
		}
		if len(t.pk) == 1 && t.pk[0] == c.name && (st != styleTable || t.auto || strings.EqualFold(c.typ, "INTEGER")) {
			s += st.kw(" PRIMARY KEY")
			if t.auto {
				s += st.kw(" AUTOINCREMENT")
			}
			pkDone = true
		}
		if c.notNull {
			s += st.kw(" NOT NULL")
		}
		if inlineU[c.name] {
			s += st.kw(" UNIQUE")
		}
		if c.dflt != "" {
			s += st.kw(" DEFAULT ") + c.dflt
		}
		if c.collate != "" {
			s += st.kw(" COLLATE ") + c.collate
		}
		if c.gen != "" {
			if !c.short {
				s += st.kw(" GENERATED ALWAYS")
			}
			s += st.kw(" AS (") + c.gen + ")"
			if c.stored {
				s += st.kw(" STORED")
			}
		}
		if i, ok := inlineF[c.name]; ok {
			s += " " + t.fks[i].clause(st)
			usedF[i] = true
		}
		parts = append(parts, s)
	}
	n := 0
	named := func() string {
		n++
		if st != styleTable {
			return ""
		}
		return fmt.Sprintf("CONSTRAINT %s ", qid(fmt.Sprintf("%s_c%d", t.name, n)))
	}
	if len(t.pk) > 0 && !pkDone {
		parts = append(parts, named()+st.kw("PRIMARY KEY (")+st.ids(t.pk)+")")
	}
	for _, u := range t.uniques {
		if len(u) == 1 && inlineU[u[0]] {
			continue
		}
		parts = append(parts, named()+st.kw("UNIQUE (")+st.ids(u)+")")
	}
	for i, f := range t.fks {
		if usedF[i] {
			continue
		}
		parts = append(parts, named()+st.kw("FOREIGN KEY (")+st.ids(f.cols)+") "+f.clause(st))
	}
	for _, c := range t.checks {
		parts = append(parts, named()+st.kw("CHECK (")+c+")")
	}
	sep, open, end := ", ", " (", ")"
	if st == styleTable {
		sep, open, end = "\n    ,", " (\n    ", "\n)"
	}
	s := st.kw("CREATE TABLE ") + st.id(t.name) + open + strings.Join(parts, sep) + end
	if t.suffix != "" {
		s += " " + t.suffix
	}
	out := []string{s}
	for _, ix := range t.idx {
		out = append(out, ix.ddl(st, t.name))
	}
	return append(out, t.extra...)
}

func (ix sIdx) ddl(st style, table string) string {
	u := ""
	if ix.unique {
		u = st.kw("UNIQUE ")
	}
	cols := make([]string, len(ix.cols))
	for i, c := range ix.cols {
		if strings.HasPrefix(c, "(") {
			cols[i] = c
		} else {
			cols[i] = st.id(c)
		}
		if ix.desc {
			cols[i] += st.kw(" DESC")
		}
	}
	s := st.kw("CREATE ") + u + st.kw("INDEX ") + st.id(ix.name) + st.kw(" ON ") + st.id(table) + " (" + strings.Join(cols, ", ") + ")"
	if ix.where != "" {
		s += st.kw(" WHERE ") + ix.where
	}
	return s
}

func (s sSchema) ddl(st style) []string {
	var out []string
	for _, t := range s.tables {
		out = append(out, t.ddl(st)...)
	}
	return append(out, s.views...)
}

func (s sSchema) server(st style, params string) *faultdb.Server {
	srv := faultdb.New(params)
	for _, q := range s.ddl(st) {
		srv.MustExec(q)
	}
	return srv
}

func (s sSchema) key() string { return strings.Join(s.ddl(styleInline), "; ") }

func (t sTable) col(name string) *sCol {
	for i := range t.cols {
		if t.cols[i].name == name {
			return &t.cols[i]
		}
	}
	return nil
}

func (s sSchema) table(name string) *sTable {
	for i := range s.tables {
		if s.tables[i].name == name {
			return &s.tables[i]
		}
	}
	return nil
}

// structs writes the schema as Go table structs following the tag reference.
func (s sSchema) structs() string {
	var b strings.Builder
	b.WriteString("package tables\n\nimport \"github.com/bokwoon95/sq\"\n")
	for i, t := range s.tables {
		name := strings.ToUpper(t.name)
		tag := ""
		if !goName(name) || strings.ToLower(name) != t.name {
			name = fmt.Sprintf("TABLE_%d", i)
			tag = fmt.Sprintf("sq:%q", t.name)
		}
		var mods []string
		if len(t.pk) > 1 {
			mods = append(mods, "primarykey="+strings.Join(t.pk, ","))
		}
		for _, u := range t.uniques {
			if len(u) > 1 {
				mods = append(mods, "unique="+strings.Join(u, ","))
			}
		}
		for _, ix := range t.idx {
			m := strings.Join(ix.cols, ",")
			if ix.unique {
				m = "{" + m + " unique}"
			} else if strings.ContainsAny(m, " ") {
				m = "{" + m + "}"
			}
			mods = append(mods, "index="+m)
		}
		for _, f := range t.fks {
			if len(f.cols) > 1 {
				mods = append(mods, "foreignkey={"+strings.Join(f.cols, ",")+" references="+f.ref+"."+strings.Join(f.refCols, ",")+f.mods()+"}")
			}
		}
		if len(mods) > 0 {
			tag = strings.TrimSpace(tag + " " + fmt.Sprintf("ddl:%q", strings.Join(mods, " ")))
		}
		fmt.Fprintf(&b, "\ntype %s struct {\n\tsq.TableStruct %s\n", name, backtick(tag))
		for j, c := range t.cols {
			fname := strings.ToUpper(c.name)
			ctag := ""
			if !goName(fname) || strings.ToLower(fname) != c.name {
				fname = fmt.Sprintf("COLUMN_%d", j)
				ctag = fmt.Sprintf("sq:%q", c.name)
			}
			var cm []string
			typ := c.typ
			if strings.ContainsAny(typ, " ") {
				typ = "{" + typ + "}"
			}
			cm = append(cm, "type="+typ)
			if c.notNull {
				cm = append(cm, "notnull")
			}
			if len(t.pk) == 1 && t.pk[0] == c.name {
				cm = append(cm, "primarykey")
				if t.auto {
					cm = append(cm, "autoincrement")
				}
			}
			if c.dflt != "" {
				d := c.dflt
				if strings.ContainsAny(d, " ") {
					d = "{" + d + "}"
				}
				cm = append(cm, "default="+d)
			}
			if c.collate != "" {
				cm = append(cm, "collate="+c.collate)
			}
			for _, u := range t.uniques {
				if len(u) == 1 && u[0] == c.name {
					cm = append(cm, "unique")
				}
			}
			for _, f := range t.fks {
				if len(f.cols) == 1 && f.cols[0] == c.name {
					m := f.ref + "." + f.refCols[0] + f.mods()
					if strings.Contains(m, " ") {
						m = "{" + m + "}"
					}
					cm = append(cm, "references="+m)
				}
			}
			ctag = strings.TrimSpace(ctag + " " + fmt.Sprintf("ddl:%q", strings.Join(cm, " ")))
			fmt.Fprintf(&b, "\t%s sq.AnyField %s\n", fname, backtick(ctag))
		}
		b.WriteString("}\n")
	}
	return b.String()
}

func (f sFK) mods() string {
	s := ""
	short := func(a string) string { return strings.ToLower(strings.ReplaceAll(a, " ", "")) }
	if f.upd != "" {
		s += " onupdate=" + short(f.upd)
	}
	if f.del != "" {
		s += " ondelete=" + short(f.del)
	}
	if f.defer_ {
		s += " deferred"
	}
	return s
}

func backtick(tag string) string {
	if tag == "" {
		return ""
	}
	return "`" + tag + "`"
}

func goName(s string) bool {
	for i, r := range s {
		if !(r == '_' || unicode.IsUpper(r) || i > 0 && unicode.IsDigit(r)) {
			return false
		}
	}
	return s != "" && s != "_"
}

// structable tells whether table structs can express the schema at all.
func (s sSchema) structable() bool {
	if len(s.views) > 0 {
		return false
	}
	for _, t := range s.tables {
		if len(t.checks) > 0 || t.suffix != "" || len(t.extra) > 0 {
			return false
		}
		for _, c := range t.cols {
			if c.gen != "" || strings.ContainsAny(c.name, " ,{}") {
				return false
			}
		}
		for _, f := range t.fks {
			if len(f.refCols) == 0 {
				return false
			}
		}
		for _, ix := range t.idx {
			if ix.where != "" || ix.desc || ix.name != genName(t.name, ix.cols, "idx") {
				return false
			}
		}
	}
	return true
}

// genName is the documented name of an index or constraint declared without one.
func genName(table string, cols []string, suffix string) string {
	return strings.ReplaceAll(table+"_"+strings.Join(cols, "_")+"_"+suffix, " ", "_")
}

// ---- shape ----

type tShape struct {
	cols    map[string]string
	order   []string
	pk      string
	auto    bool
	uniques []string
	fks     []string
	checks  []string
	idx     map[string]string
	opts    string
	trig    map[string]string
}

type shape struct {
	tables map[string]*tShape
	views  map[string]string
}

// shapeOf reads a database with SQLite's own pragmas.
func shapeOf(s *faultdb.Server, skip ...string) *shape {
	sk := map[string]bool{}
	for _, n := range skip {
		sk[n] = true
	}
	sh := &shape{tables: map[string]*tShape{}, views: map[string]string{}}
	for _, r := range s.MustQuery(`SELECT type, name, tbl_name, coalesce(sql,'') FROM sqlite_schema WHERE name NOT GLOB 'sqlite_*' OR type = 'table' ORDER BY type = 'table' DESC, name`) {
		typ, name, tbl, sql := str(r[0]), str(r[1]), str(r[2]), str(r[3])
		if sk[tbl] || strings.HasPrefix(tbl, "sqlite_") {
			continue
		}
		switch typ {
		case "view":
			sh.views[name] = squeeze(sql)
		case "trigger":
			if t := sh.tables[tbl]; t != nil {
				t.trig[name] = squeeze(sql)
			} else {
				sh.views["trigger "+name] = squeeze(sql)
			}
		case "table":
			sh.tables[name] = readTable(s, name, sql)
		}
	}
	return sh
}

func readTable(s *faultdb.Server, name, sql string) *tShape {
	t := &tShape{cols: map[string]string{}, idx: map[string]string{}, trig: map[string]string{}}
	toks := sqlTokens(sql)
	t.auto = hasTokens(toks, "AUTOINCREMENT")
	t.checks = clauseBodies(toks, "CHECK")
	if n := lastClose(toks); n >= 0 {
		t.opts = strings.ToUpper(strings.Join(toks[n+1:], " "))
	}
	gens := generated(toks)
	type pkc struct {
		seq  int
		name string
	}
	var pks []pkc
	for _, r := range s.MustQuery(`SELECT name, type, "notnull", coalesce(dflt_value,''), pk, hidden FROM pragma_table_xinfo(?) ORDER BY cid`, name) {
		cn := str(r[0])
		typ := strings.TrimSuffix(strings.ToUpper(str(r[1])), " GENERATED ALWAYS")
		if typ == "GENERATED ALWAYS" {
			typ = ""
		}
		d := fmt.Sprintf("%s notnull=%s default=%s", typ, str(r[2]), normDefault(str(r[3])))
		if h := str(r[5]); h == "2" || h == "3" {
			d += " generated" + h + "=" + gens[strings.ToLower(cn)]
		}
		t.cols[cn] = d
		t.order = append(t.order, cn)
		if p := str(r[4]); p != "0" {
			n := 0
			fmt.Sscan(p, &n)
			pks = append(pks, pkc{n, cn})
		}
	}
	sort.Slice(pks, func(i, j int) bool { return pks[i].seq < pks[j].seq })
	for _, p := range pks {
		t.pk += qid(p.name)
	}
	for _, r := range s.MustQuery(`SELECT name, "unique", origin, partial FROM pragma_index_list(?)`, name) {
		in, u, origin, partial := str(r[0]), str(r[1]), str(r[2]), str(r[3])
		cols := ""
		for _, c := range s.MustQuery(`SELECT coalesce(name,'('||cid||')'), desc, coll FROM pragma_index_xinfo(?) WHERE key ORDER BY seqno`, in) {
			cols += qid(str(c[0]))
			if str(c[1]) == "1" {
				cols += " DESC"
			}
		}
		switch origin {
		case "u":
			t.uniques = append(t.uniques, cols)
		case "c":
			isql := s.Strings(`SELECT sql FROM sqlite_schema WHERE type = 'index' AND name = ?`, in)[0]
			body := ""
			if strings.Contains(cols, `"(-`) {
				body = " " + exprIndexBody(isql)
			}
			if partial == "1" {
				body += " WHERE " + whereBody(isql)
			}
			t.idx[in] = fmt.Sprintf("unique=%s %s%s", u, cols, body)
		}
	}
	sort.Strings(t.uniques)
	fk := map[string]*[3]string{}
	var ids []string
	for _, r := range s.MustQuery(`SELECT id, "table", "from", coalesce("to",''), on_update, on_delete FROM pragma_foreign_key_list(?) ORDER BY id, seq`, name) {
		id := str(r[0])
		if fk[id] == nil {
			fk[id] = &[3]string{"", "", " ON UPDATE " + str(r[4]) + " ON DELETE " + str(r[5])}
			ids = append(ids, id)
		}
		f := fk[id]
		f[0] += qid(str(r[2]))
		if f[1] == "" {
			f[1] = qid(str(r[1])) + ":"
		}
		if str(r[3]) != "" {
			f[1] += qid(str(r[3]))
		}
	}
	for _, id := range ids {
		t.fks = append(t.fks, fk[id][0]+" -> "+fk[id][1]+fk[id][2])
	}
	sort.Strings(t.fks)
	return t
}

func (t *tShape) String() string {
	var b strings.Builder
	cols := make([]string, 0, len(t.cols))
	for c, d := range t.cols {
		cols = append(cols, fmt.Sprintf("  col %q %s", c, d))
	}
	sort.Strings(cols)
	b.WriteString(strings.Join(cols, "\n") + "\n")
	fmt.Fprintf(&b, "  pk %s auto=%v opts=%s\n", t.pk, t.auto, t.opts)
	for _, u := range t.uniques {
		b.WriteString("  unique " + u + "\n")
	}
	for _, f := range t.fks {
		b.WriteString("  fk " + f + "\n")
	}
	for _, c := range t.checks {
		b.WriteString("  check " + c + "\n")
	}
	for _, k := range sortedKeys(t.idx) {
		fmt.Fprintf(&b, "  index %q %s\n", k, t.idx[k])
	}
	for _, k := range sortedKeys(t.trig) {
		fmt.Fprintf(&b, "  trigger %q %s\n", k, t.trig[k])
	}
	return b.String()
}

func (s *shape) String() string {
	var b strings.Builder
	for _, n := range sortedKeys(s.tables) {
		fmt.Fprintf(&b, "table %q\n%s", n, s.tables[n])
	}
	for _, n := range sortedKeys(s.views) {
		fmt.Fprintf(&b, "view %q %s\n", n, s.views[n])
	}
	return b.String()
}

func sortedKeys[V any](m map[string]V) []string {
	out := make([]string, 0, len(m))
	for k := range m {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

func squeeze(s string) string { return joinTokens(sqlTokens(s)) }

// joinTokens forgets how names are quoted and the case of everything but literals.
func joinTokens(toks []string) string {
	out := make([]string, len(toks))
	for i, t := range toks {
		if t[0] == '\'' {
			out[i] = t
		} else {
			out[i] = strings.ToLower(unquoteID(t))
		}
	}
	return strings.Join(out, " ")
}

// normDefault brings a default into one writing: outer brackets and the case of keywords
// do not matter.
func normDefault(d string) string {
	toks := sqlTokens(d)
	for len(toks) >= 2 && toks[0] == "(" && closing(toks, 0) == len(toks)-1 {
		toks = toks[1 : len(toks)-1]
	}
	for i, t := range toks {
		if t[0] != '\'' && t[0] != '"' && t[0] != '[' && t[0] != '`' {
			toks[i] = strings.ToUpper(t)
		}
	}
	return strings.Join(toks, " ")
}

// sqlTokens splits SQL into words, numbers, quoted things and single symbols.
func sqlTokens(s string) []string {
	var out []string
	i := 0
	for i < len(s) {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '\'' || c == '"' || c == '`':
			j := i + 1
			for j < len(s) {
				if s[j] == c {
					if j+1 < len(s) && s[j+1] == c {
						j += 2
						continue
					}
					break
				}
				j++
			}
			if j >= len(s) {
				j = len(s) - 1
			}
			out = append(out, s[i:j+1])
			i = j + 1
		case c == '[':
			j := strings.IndexByte(s[i:], ']')
			if j < 0 {
				j = len(s) - i - 1
			}
			out = append(out, s[i:i+j+1])
			i += j + 1
		case c == '-' && i+1 < len(s) && s[i+1] == '-':
			j := strings.IndexByte(s[i:], '\n')
			if j < 0 {
				j = len(s) - i - 1
			}
			i += j + 1
		case c == '_' || c >= '0' && c <= '9' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= 0x80 || c == '.':
			j := i
			for j < len(s) && (s[j] == '_' || s[j] >= '0' && s[j] <= '9' || s[j] >= 'a' && s[j] <= 'z' || s[j] >= 'A' && s[j] <= 'Z' || s[j] >= 0x80 || s[j] == '.') {
				j++
			}
			out = append(out, s[i:j])
			i = j
		default:
			out = append(out, string(c))
			i++
		}
	}
	return out
}

func closing(toks []string, open int) int {
	depth := 0
	for i := open; i < len(toks); i++ {
		switch toks[i] {
		case "(":
			depth++
		case ")":
			depth--
			if depth == 0 {
				return i
			}
		}
	}
	return -1
}

func lastClose(toks []string) int {
	for i := range toks {
		if toks[i] == "(" {
			return closing(toks, i)
		}
	}
	return -1
}

func hasTokens(toks []string, want string) bool {
	for _, t := range toks {
		if strings.EqualFold(t, want) {
			return true
		}
	}
	return false
}

func clauseBodies(toks []string, kw string) []string {
	var out []string
	for i, t := range toks {
		if strings.EqualFold(t, kw) && i+1 < len(toks) && toks[i+1] == "(" {
			if e := closing(toks, i+1); e > 0 {
				out = append(out, joinTokens(toks[i+2:e]))
			}
		}
	}
	sort.Strings(out)
	return out
}

// generated maps lower case column names to their generation expression.
func generated(toks []string) map[string]string {
	out := map[string]string{}
	open := -1
	for i, t := range toks {
		if t == "(" {
			open = i
			break
		}
	}
	if open < 0 {
		return out
	}
	depth, first := 0, ""
	for i := open; i < len(toks); i++ {
		switch t := toks[i]; {
		case t == "(":
			depth++
			if depth == 1 {
				first = ""
			}
			continue
		case t == ")":
			depth--
			continue
		case t == "," && depth == 1:
			first = ""
			continue
		case depth == 1 && first == "":
			first = strings.ToLower(unquoteID(t))
		case depth == 1 && strings.EqualFold(t, "AS") && i+1 < len(toks) && toks[i+1] == "(":
			if e := closing(toks, i+1); e > 0 {
				out[first] = joinTokens(toks[i+2 : e])
			}
		}
	}
	return out
}

func unquoteID(t string) string {
	if len(t) >= 2 {
		switch t[0] {
		case '"', '`', '\'':
			q := t[:1]
			return strings.ReplaceAll(t[1:len(t)-1], q+q, q)
		case '[':
			return t[1 : len(t)-1]
		}
	}
	return t
}

func exprIndexBody(sql string) string {
	toks := sqlTokens(sql)
	for i, t := range toks {
		if t == "(" {
			if e := closing(toks, i); e > 0 {
				return joinTokens(toks[i+1 : e])
			}
		}
	}
	return ""
}

func whereBody(sql string) string {
	toks := sqlTokens(sql)
	for i, t := range toks {
		if t == "(" {
			e := closing(toks, i)
			if e > 0 && e+1 < len(toks) && strings.EqualFold(toks[e+1], "WHERE") {
				return joinTokens(toks[e+2:])
			}
		}
	}
	return ""
}
