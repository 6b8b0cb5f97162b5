package checks

import (
	"encoding/json"
	"fmt"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
)

// This part of C16 executes the introspection queries of Postgres, MySQL and
// SQL Server on system catalogs held in SQLite (syscat.go) that describe an
// enumerated database (syscatworld.go).

var xVersions = map[string][]string{
	"postgres":  {"15.3", "12.1", "11.4", "10.9"},
	"mysql":     {"8.0.33", "5.7.40", "10.11.4-MariaDB"},
	"sqlserver": {"15.0.2000.5"},
}

var xSchemas = map[string]string{"postgres": "public", "mysql": dbName, "sqlserver": "dbo"}

// xTypeList is the column types. what is how the server says it, want what has
// to be reported.
func xTypeList(dialect string) []xType {
	var out []xType
	next := int64(3000)
	add := func(oid, mod int64, raw, want, size, prec, scale string) {
		out = append(out, xType{raw: raw, oid: oid, mod: mod, col: ddl.Column{ColumnType: want, CharacterLength: size, NumericPrecision: prec, NumericScale: scale}})
	}
	switch dialect {
	case "postgres":
		plain := func(list ...string) {
			for _, s := range list {
				raw, want, ok := strings.Cut(s, "=")
				if !ok {
					want = raw
				}
				next++
				add(next, -1, raw, want, "", "", "")
			}
		}
		add(1700, -1, "numeric", "numeric", "", "", "")
		for _, ps := range [][2]int64{{10, 2}, {5, 0}, {38, 37}, {1, 1}} {
			p, s := fmt.Sprint(ps[0]), fmt.Sprint(ps[1])
			add(1700, (ps[0]<<16|ps[1])+4, "numeric("+p+","+s+")", "numeric("+p+","+s+")", "", p, s)
		}
		add(1043, -1, "character varying", "varchar", "", "", "")
		add(1043, 14, "character varying(10)", "varchar(10)", "10", "", "")
		add(1042, 7, "character(3)", "char(3)", "3", "", "")
		plain("text", "integer=int", "bigint", "smallint", "boolean", "date", "timestamp without time zone=timestamp", "timestamp with time zone=timestamptz", "time without time zone=time", "time with time zone=timetz",
			"timestamp(3) without time zone=timestamp(3)", "timestamp(3) with time zone=timestamptz(3)", "time(6) without time zone=time(6)", "time(6) with time zone=timetz(6)",
			"double precision", "real", "bytea", "uuid", "json", "jsonb", "inet", "interval", "interval(3)", "bit(8)", "bit varying(8)=varbit(8)", "bit varying=varbit", "xml", "tsvector", "int4range", "money",
			"integer[]=int[]", "text[]", "numeric(10,2)[]", "character varying(10)[]=varchar(10)[]", "timestamp(3) with time zone[]=timestamptz(3)[]", "uuid[]", "point", "hstore", "citext")
		for _, s := range []string{"mood", `"Mood"`, "s2.mood", `s2."Odd mood"`} {
			next++
			add(next, -1, s, s, "", "", "")
			out[len(out)-1].col.IsEnum = true
		}
	case "mysql":
		my := func(raw string, size, prec, scale int64) {
			t := xType{raw: raw, size: size, prec: prec, scale: scale, col: ddl.Column{ColumnType: raw}}
			if strings.HasPrefix(raw, "varchar") || strings.HasPrefix(raw, "char") {
				t.col.CharacterLength = fmt.Sprint(size)
			}
			if strings.HasPrefix(raw, "decimal") && !strings.Contains(raw, "unsigned") {
				t.col.NumericPrecision, t.col.NumericScale = fmt.Sprint(prec), fmt.Sprint(scale)
			}
			out = append(out, t)
		}
		my("varchar(10)", 10, 0, 0)
		my("char(3)", 3, 0, 0)
		my("text", 65535, 0, 0)
		my("enum('a','B','it''s')", 4, 0, 0)
		my("set('x','Y')", 3, 0, 0)
		my("decimal(10,2)", 0, 10, 2)
		my("decimal(5,0)", 0, 5, 0)
		my("decimal(10,2) unsigned", 0, 10, 2)
		for _, s := range []string{"int", "int unsigned", "bigint", "bigint unsigned", "tinyint(1)", "tinyint", "smallint", "float", "double"} {
			my(s, 0, 10, 0)
		}
		for _, s := range []string{"datetime", "datetime(6)", "timestamp", "date", "time(3)", "json", "blob", "binary(16)", "varbinary(20)", "bit(8)", "year", "geometry"} {
			my(s, 0, 0, 0)
		}
	case "sqlserver":
		ms := func(id, user int64, name string, size, prec, scale int64, want, length, p, s string) {
			out = append(out, xType{raw: name, oid: id, mod: user, size: size, prec: prec, scale: scale, col: ddl.Column{ColumnType: want, CharacterLength: length, NumericPrecision: p, NumericScale: s}})
		}
		ms(231, 231, "nvarchar", 10, 0, 0, "nvarchar(10)", "10", "", "")
		ms(231, 231, "nvarchar", -1, 0, 0, "nvarchar(MAX)", "MAX", "", "")
		ms(167, 167, "varchar", 255, 0, 0, "varchar(255)", "255", "", "")
		ms(175, 175, "char", 3, 0, 0, "char(3)", "3", "", "")
		ms(239, 239, "nchar", 3, 0, 0, "nchar(3)", "3", "", "")
		ms(165, 165, "varbinary", -1, 0, 0, "varbinary(MAX)", "MAX", "", "")
		ms(173, 173, "binary", 16, 0, 0, "binary(16)", "16", "", "")
		ms(106, 106, "decimal", 0, 10, 2, "decimal(10,2)", "", "10", "2")
		ms(108, 108, "numeric", 0, 18, 0, "numeric(18,0)", "", "18", "0")
		ms(56, 56, "int", 0, 10, 0, "int", "", "", "")
		ms(127, 127, "bigint", 0, 19, 0, "bigint", "", "", "")
		ms(52, 52, "smallint", 0, 5, 0, "smallint", "", "", "")
		ms(48, 48, "tinyint", 0, 3, 0, "tinyint", "", "", "")
		ms(104, 104, "bit", 0, 1, 0, "bit", "", "", "")
		ms(62, 62, "float", 0, 53, 0, "float", "", "", "")
		ms(59, 59, "real", 0, 24, 0, "real", "", "", "")
		ms(60, 60, "money", 0, 19, 4, "money", "", "", "")
		ms(61, 61, "datetime", 0, 23, 3, "datetime", "", "", "")
		ms(58, 58, "smalldatetime", 0, 16, 0, "smalldatetime", "", "", "")
		ms(40, 40, "date", 0, 10, 0, "date", "", "", "")
		ms(42, 42, "datetime2", 0, 27, 7, "datetime2", "", "", "")
		ms(42, 42, "datetime2", 0, 23, 3, "datetime2(3)", "", "", "")
		ms(43, 43, "datetimeoffset", 0, 34, 7, "datetimeoffset", "", "", "")
		ms(43, 43, "datetimeoffset", 0, 26, 0, "datetimeoffset(0)", "", "", "")
		ms(41, 41, "time", 0, 16, 7, "time", "", "", "")
		ms(41, 41, "time", 0, 13, 4, "time(4)", "", "", "")
		ms(36, 36, "uniqueidentifier", 0, 0, 0, "uniqueidentifier", "", "", "")
		ms(241, 241, "xml", 0, 0, 0, "xml", "", "", "")
		ms(240, 130, "geography", 0, 0, 0, "geography", "", "", "")
	}
	return out
}

func xInt(dialect string) xType {
	for _, t := range xTypeList(dialect) {
		if t.col.ColumnType == "int" {
			return t
		}
	}
	return xType{}
}

func xC(name string, t xType) xCol {
	return xCol{Column: ddl.Column{ColumnName: name, IsEnum: t.col.IsEnum}, typ: t}
}

// abc is a table with three columns.
func abc(dialect, name string) xTable {
	i := xInt(dialect)
	return xTable{name: name, cols: []xCol{xC("a", i), xC("b", i), xC("c", i)}}
}

func xKey(dialect, kind, name string, cols ...string) xCons {
	if dialect == "mysql" && kind == "PRIMARY KEY" {
		name = "PRIMARY"
	}
	x := xCons{Constraint: ddl.Constraint{ConstraintName: name, ConstraintType: kind, Columns: cols}}
	switch kind {
	case "CHECK":
		x.Columns, x.CheckExpr = nil, "a > 0"
		x.raw = map[string]string{"postgres": "CHECK (a > 0)", "mysql": "(a > 0)", "sqlserver": "(a > 0)"}[dialect]
	case "EXCLUDE":
		x.ExclusionIndexType = "gist"
		for i := range cols {
			x.ExclusionOperators = append(x.ExclusionOperators, []string{"&&", "=", "<>"}[i])
		}
	}
	return x
}

func xFK(name string, cols []string, schema, table string, refs []string) xCons {
	return xCons{Constraint: ddl.Constraint{ConstraintName: name, ConstraintType: "FOREIGN KEY", Columns: cols, ReferencesSchema: schema, ReferencesTable: table, ReferencesColumns: refs}}
}

func xIndex(dialect, table, name string, unique bool, cols ...string) ddl.Index {
	x := ddl.Index{IndexName: name, IsUnique: unique, Columns: cols}
	switch dialect {
	case "postgres":
		x.IndexType = "btree"
		for range cols {
			x.Opclasses = append(x.Opclasses, "btree_ops")
		}
		x.SQL = "CREATE INDEX " + name + " ON " + table + " USING btree (" + strings.Join(cols, ", ") + ");"
	case "mysql":
		x.IndexType = "BTREE"
		x.Descending = make([]bool, len(cols))
	case "sqlserver":
		x.IndexType = "NONCLUSTERED"
		x.Descending = make([]bool, len(cols))
	}
	return x
}

func xTrigger(dialect, table, name string) ddl.Trigger {
	x := ddl.Trigger{TriggerName: name}
	switch dialect {
	case "postgres":
		x.SQL = "CREATE TRIGGER " + name + " AFTER INSERT ON " + table + " FOR EACH ROW EXECUTE FUNCTION f();"
	case "mysql":
		x.SQL, x.Attrs = "SET NEW.a = 1", map[string]string{"actionTiming": "BEFORE", "eventManipulation": "INSERT"}
	case "sqlserver":
		x.SQL = "CREATE TRIGGER " + name + " ON " + table + " AFTER INSERT AS SELECT 1"
	}
	return x
}

func xRout(dialect, kind, name string, params ...[3]string) xRoutine {
	x := xRoutine{Routine: ddl.Routine{RoutineName: name, RoutineType: kind}, params: params}
	var args []string
	for _, p := range params {
		args = append(args, p[1]+" "+p[2])
	}
	switch dialect {
	case "postgres":
		x.IdentityArguments = strings.Join(args, ", ")
		x.SQL = "CREATE OR REPLACE " + kind + " " + name + "(" + x.IdentityArguments + ") AS $$ ... $$;"
		x.Attrs = map[string]string{"returnType": "integer"}
		if kind == "PROCEDURE" {
			x.Attrs["returnType"] = ""
		}
	case "mysql":
		x.SQL = "RETURN 1"
		ret := "int"
		if kind == "PROCEDURE" {
			ret = ""
			for i, p := range params {
				args[i] = p[0] + " " + args[i]
			}
		}
		x.Attrs = map[string]string{"returnType": ret, "parameters": strings.Join(args, "|"), "routineBody": "SQL", "isDeterministic": fmt.Sprint(len(name)%2 == 0), "sqlDataAccess": "READS SQL DATA", "securityType": "DEFINER"}
	case "sqlserver":
		x.SQL = "CREATE " + kind + " " + name + " AS SELECT 1"
	}
	return x
}

func xV(dialect, name string, materialized bool, types ...xType) xView {
	v := xView{View: ddl.View{ViewName: name, IsMaterialized: materialized, SQL: "SELECT * FROM t AS " + fmt.Sprint(len(name))}, types: types}
	for i, t := range types {
		n := "p" + strings.Repeat("q", i)
		v.Columns = append(v.Columns, n)
		v.ColumnTypes = append(v.ColumnTypes, t.raw)
		if t.col.IsEnum {
			v.EnumColumns = append(v.EnumColumns, n)
		}
	}
	return v
}

func xEmpty(dialect, version string) *xWorld {
	w := &xWorld{dialect: dialect, version: version, schemas: []xSchema{{name: xSchemas[dialect]}, {name: "s2"}}}
	if dialect == "postgres" {
		w.exts = []string{"hstore", "plpgsql"}
	}
	return w
}

// xFull is a database with objects of every kind in two schemas, and system
// objects.
func xFull(dialect, version string) *xWorld {
	w := xEmpty(dialect, version)
	types := xTypeList(dialect)
	for i := range w.schemas {
		s := &w.schemas[i]
		first := w.schemas[0].name
		t, u, x := abc(dialect, "t"), abc(dialect, "u"), abc(dialect, "x")
		p := fmt.Sprint(i)
		t.cons = append(t.cons, xKey(dialect, "PRIMARY KEY", "t_pk"+p, "a"), xKey(dialect, "UNIQUE", "t_uq"+p, "b"), xKey(dialect, "UNIQUE", "t_uq2"+p, "c", "b"))
		u.cons = append(u.cons, xFK("u_fk"+p, []string{"a"}, s.name, "t", []string{"a"}), xFK("u_fk2"+p, []string{"b", "c"}, first, "t", []string{"c", "b"}), xKey(dialect, "PRIMARY KEY", "u_pk"+p, "b", "a"))
		if w.major() >= 8 {
			u.cons = append(u.cons, xKey(dialect, "CHECK", "u_ck"+p))
		}
		if dialect == "postgres" {
			x.cons = append(x.cons, xKey(dialect, "EXCLUDE", "x_ex"+p, "a", "b"))
		}
		t.idx = append(t.idx, xIndex(dialect, "t", "t_idx"+p, false, "c", "a"))
		x.idx = append(x.idx, xIndex(dialect, "x", "x_idx"+p, true, "b"))
		t.trigs = append(t.trigs, xTrigger(dialect, "t", "t_trg"+p))
		s.tables = append(s.tables, t, u, x)
		v, v2 := xV(dialect, "v", false, types[0], types[1], types[len(types)-1]), xV(dialect, "vv", dialect == "postgres", types[2], types[3])
		if dialect != "mysql" {
			v.Triggers = append(v.Triggers, xTrigger(dialect, "v", "v_trg"+p))
			v2.Indexes = append(v2.Indexes, xIndex(dialect, "vv", "vv_idx"+p, false, "p"))
		}
		s.views = append(s.views, v, v2)
		s.routines = append(s.routines, xRout(dialect, "FUNCTION", "f", [3]string{"IN", "x", "int"}, [3]string{"IN", "y", "text"}))
		if dialect != "postgres" || w.major() >= 11 {
			s.routines = append(s.routines, xRout(dialect, "PROCEDURE", "pr", [3]string{"IN", "x", "int"}, [3]string{"OUT", "y", "text"}))
		}
		if dialect == "postgres" {
			s.enums = append(s.enums, ddl.Enum{EnumName: "e1", EnumLabels: []string{"z", "a", "m"}}, ddl.Enum{EnumName: "e2", EnumLabels: []string{"only"}})
			s.domains = append(s.domains, xDomain{Domain: ddl.Domain{DomainName: "d1", CheckNames: []string{"d1_check"}, CheckExprs: []string{"(VALUE > 0)"}, IsNotNull: true}, base: xInt(dialect)},
				xDomain{Domain: ddl.Domain{DomainName: "d2", CheckNames: []string{"d2_check"}, CheckExprs: []string{"(VALUE < 9)"}, ColumnDefault: "5"}, base: types[1]})
			y := xRout(dialect, "FUNCTION", "ext_fn")
			y.extension = true
			s.routines = append(s.routines, y)
		}
	}
	w.addSystem()
	return w
}

func (w *xWorld) addSystem() {
	switch w.dialect {
	case "postgres":
		for _, n := range []string{"pg_catalog", "information_schema", "pg_toast"} {
			s := xSchema{name: n, system: true, tables: []xTable{abc(w.dialect, n+"_sys")}, views: []xView{xV(w.dialect, n+"_sysv", false, xInt(w.dialect))}, routines: []xRoutine{xRout(w.dialect, "FUNCTION", "sysfn")},
				enums: []ddl.Enum{{EnumName: n + "_enum", EnumLabels: []string{"q"}}}, domains: []xDomain{{Domain: ddl.Domain{DomainName: n + "_dom", CheckNames: []string{"k"}, CheckExprs: []string{"(true)"}}, base: xInt(w.dialect)}}}
			s.tables[0].cons = append(s.tables[0].cons, xKey(w.dialect, "PRIMARY KEY", n+"_pk", "a"), xKey(w.dialect, "UNIQUE", n+"_uq", "b"), xKey(w.dialect, "CHECK", n+"_ck"), xKey(w.dialect, "EXCLUDE", n+"_ex", "c"), xFK(n+"_fk", []string{"a"}, n, n+"_sys", []string{"b"}))
			s.tables[0].idx = append(s.tables[0].idx, xIndex(w.dialect, n+"_sys", n+"_idx", false, "c"))
			s.tables[0].trigs = append(s.tables[0].trigs, xTrigger(w.dialect, n+"_sys", n+"_trg"))
			w.schemas = append(w.schemas, s)
		}
	case "mysql":
		for _, n := range []string{"mysql", "information_schema", "performance_schema", "sys"} {
			s := xSchema{name: n, system: true, tables: []xTable{abc(w.dialect, n+"_sys")}, views: []xView{xV(w.dialect, n+"_sysv", false, xInt(w.dialect))}, routines: []xRoutine{xRout(w.dialect, "FUNCTION", "sysfn", [3]string{"IN", "x", "int"})}}
			s.tables[0].cons = append(s.tables[0].cons, xKey(w.dialect, "PRIMARY KEY", n+"_pk", "a"), xKey(w.dialect, "UNIQUE", n+"_uq", "b"), xFK(n+"_fk", []string{"c"}, n, n+"_sys", []string{"b"}))
			if w.major() >= 8 {
				s.tables[0].cons = append(s.tables[0].cons, xKey(w.dialect, "CHECK", n+"_ck"))
			}
			s.tables[0].idx = append(s.tables[0].idx, xIndex(w.dialect, n+"_sys", n+"_idx", false, "c", "a"))
			s.tables[0].trigs = append(s.tables[0].trigs, xTrigger(w.dialect, n+"_sys", n+"_trg"))
			w.schemas = append(w.schemas, s)
		}
	case "sqlserver":
		for _, n := range []string{"spt_values", "MSreplication_options"} {
			t := abc(w.dialect, n)
			t.system = true
			t.cons = append(t.cons, xKey(w.dialect, "PRIMARY KEY", n+"_pk", "a"), xKey(w.dialect, "UNIQUE", n+"_uq", "b"), xKey(w.dialect, "CHECK", n+"_ck"), xFK(n+"_fk", []string{"a"}, "dbo", n, []string{"b"}))
			t.idx = append(t.idx, xIndex(w.dialect, n, n+"_idx", false, "c"))
			t.trigs = append(t.trigs, xTrigger(w.dialect, n, n+"_trg"))
			w.schemas[0].tables = append(w.schemas[0].tables, t)
		}
		v := xV(w.dialect, "spt_view", false, xInt(w.dialect))
		v.system = true
		v.Indexes = append(v.Indexes, xIndex(w.dialect, "spt_view", "spt_view_idx", false, "p"))
		v.Triggers = append(v.Triggers, xTrigger(w.dialect, "spt_view", "spt_view_trg"))
		w.schemas[0].views = append(w.schemas[0].views, v)
		x := xRout(w.dialect, "PROCEDURE", "sp_MScleanup")
		x.sys = true
		w.schemas[0].routines = append(w.schemas[0].routines, x)
	}
}

// xColumns has a table for each type whose columns have every combination of
// attributes.
func xColumns(dialect, version string) *xWorld {
	w := xEmpty(dialect, version)
	maria := strings.Contains(version, "MariaDB")
	s := &w.schemas[0]
	type def struct {
		raw  any
		want string
	}
	var defs []def
	switch dialect {
	case "postgres":
		defs = []def{{nil, ""}, {"5", "5"}, {"'x'::text", "'x'::text"}, {"now()", "now()"}, {"''::text", "''::text"}}
	case "mysql":
		if maria {
			// MariaDB says the expression.
			defs = []def{{nil, ""}, {"5", "5"}, {"'x'", "'x'"}, {"NULL", "NULL"}, {"current_timestamp()", "CURRENT_TIMESTAMP"}}
		} else {
			defs = []def{{nil, ""}, {"", "''"}, {"5", "5"}, {"abc", "'abc'"}, {"it's", "'it''s'"}, {"CURRENT_TIMESTAMP", "CURRENT_TIMESTAMP"}, {"a b", "'a b'"}}
		}
	case "sqlserver":
		defs = []def{{nil, ""}, {"((1))", "1"}, {"('abc')", "'abc'"}, {"(getdate())", "getdate()"}, {"(NULL)", "NULL"}, {"((1)+(2))", "(1)+(2)"}}
	}
	for n, t := range xTypeList(dialect) {
		tab := xTable{name: fmt.Sprintf("t%02d", n)}
		add := func(c xCol) {
			c.ColumnName = fmt.Sprintf("c%03d", len(tab.cols))
			if dialect == "postgres" && len(tab.cols)%7 == 3 {
				gone := xC("........pg.dropped."+fmt.Sprint(len(tab.cols)), xInt(dialect))
				gone.dropped = true
				tab.cols = append(tab.cols, gone)
			}
			tab.cols = append(tab.cols, c)
		}
		for mask := 0; mask < 8; mask++ {
			c := xC("", t)
			c.IsNotNull = mask&1 != 0
			if mask&2 != 0 && dialect != "sqlserver" {
				c.Comment = "it's a \"comment\""
			}
			if mask&4 != 0 {
				c.CollationName = "de_DE"
			}
			if c.CollationName != "" && t.size == 0 && dialect != "postgres" {
				continue
			}
			if c.CollationName != "" && dialect == "sqlserver" && !strings.Contains(t.raw, "char") {
				continue
			}
			for _, d := range defs {
				x := c
				x.rawDefault, x.ColumnDefault = d.raw, d.want
				add(x)
			}
			ids := map[string][]string{"postgres": {"GENERATED BY DEFAULT AS IDENTITY", "GENERATED ALWAYS AS IDENTITY"}, "sqlserver": {"IDENTITY", "IDENTITY(5, 1)", "IDENTITY(1, 3)", "IDENTITY(-4, -2)"}}[dialect]
			if dialect == "postgres" && w.major() < 10 {
				ids = nil
			}
			for _, id := range ids {
				x := c
				x.ColumnIdentity = id
				x.seed, x.step = 1, 1
				fmt.Sscanf(id, "IDENTITY(%d, %d)", &x.seed, &x.step)
				add(x)
			}
			switch {
			case dialect == "postgres" && w.major() >= 12:
				x := c
				x.rawGen, x.GeneratedExpr, x.GeneratedExprStored = "a + 1", "a + 1", true
				add(x)
			case dialect == "mysql":
				for _, stored := range []bool{false, true} {
					x := c
					x.rawGen, x.GeneratedExpr, x.GeneratedExprStored = "(`a` + 1)", "(`a` + 1)", stored
					x.extra = map[bool]string{false: "VIRTUAL GENERATED", true: "STORED GENERATED"}[stored]
					add(x)
				}
				x := c
				x.extra, x.IsAutoincrement = "auto_increment", true
				add(x)
				if t.raw == "datetime" || t.raw == "timestamp" {
					x = c
					x.OnUpdateCurrentTimestamp = true
					for _, form := range []string{"on update CURRENT_TIMESTAMP", "DEFAULT_GENERATED on update CURRENT_TIMESTAMP", "on update current_timestamp()"} {
						x.rawDefault, x.ColumnDefault = nil, ""
						switch {
						case maria != strings.Contains(form, "()"):
							continue
						case !maria && (w.major() < 8 && strings.Contains(form, "DEFAULT")):
							continue
						case strings.Contains(form, "DEFAULT"):
							x.rawDefault, x.ColumnDefault = "CURRENT_TIMESTAMP", "CURRENT_TIMESTAMP"
						}
						x.extra = form
						add(x)
					}
				}
				if !maria && w.major() >= 8 {
					for _, e := range []string{"uuid()", "CURRENT_TIMESTAMP", "(1 + 2)"} {
						x = c
						x.extra, x.rawDefault, x.ColumnDefault = "DEFAULT_GENERATED", e, e
						add(x)
					}
				}
			case dialect == "sqlserver":
				for _, stored := range []bool{false, true} {
					x := c
					x.rawGen, x.GeneratedExpr, x.GeneratedExprStored = "([a]+(1))", "([a]+(1))", stored
					add(x)
				}
			}
		}
		s.tables = append(s.tables, tab)
	}
	if dialect == "postgres" {
		for i, t := range []string{"integer", "text", "character varying(10)", "numeric(10,2)"} {
			for _, x := range xTypeList(dialect) {
				if x.raw == t {
					s.domains = append(s.domains, xDomain{Domain: ddl.Domain{DomainName: fmt.Sprintf("dom%d", i)}, base: x})
					c := xC("d", x)
					c.DomainName, c.domain = fmt.Sprintf("dom%d", i), fmt.Sprintf("dom%d", i)
					s.tables = append(s.tables, xTable{name: "of_" + c.domain, cols: []xCol{c}})
				}
			}
		}
	}
	return w
}

// ordered lists the non-empty sequences of different columns.
func ordered(cols ...string) (out [][]string) {
	var rec func(cur []string)
	rec = func(cur []string) {
		if len(cur) > 0 {
			out = append(out, append([]string(nil), cur...))
		}
		for _, c := range cols {
			if !has(cur, c) {
				rec(append(cur, c))
			}
		}
	}
	rec(nil)
	return out
}

// xConstraints has every key, every foreign key mapping and every combination
// of foreign key options.
func xConstraints(dialect, version string) *xWorld {
	w := xEmpty(dialect, version)
	rules := []string{"", "RESTRICT", "CASCADE", "SET NULL", "SET DEFAULT"}
	if dialect == "sqlserver" {
		rules = []string{"", "CASCADE", "SET NULL", "SET DEFAULT"}
	}
	for i := range w.schemas {
		s := &w.schemas[i]
		keys := abc(dialect, "keys")
		lists := ordered("a", "b", "c")
		for n, list := range lists {
			t := abc(dialect, fmt.Sprintf("pk%02d", n))
			pk := xKey(dialect, "PRIMARY KEY", fmt.Sprintf("pk%02d_pkey", n), list...)
			pk.IsClustered = dialect == "sqlserver" && n%2 == 0
			pk.IsDeferrable, pk.IsInitiallyDeferred = dialect == "postgres" && n%3 > 0, dialect == "postgres" && n%3 > 1
			t.cons = append(t.cons, pk)
			uq := xKey(dialect, "UNIQUE", fmt.Sprintf("uq%02d", n), list...)
			uq.IsClustered = dialect == "sqlserver" && n%2 == 1
			uq.IsDeferrable, uq.IsInitiallyDeferred = pk.IsDeferrable, pk.IsInitiallyDeferred
			t.cons = append(t.cons, uq)
			for k := 0; k < 2; k++ {
				x := xIndex(dialect, t.name, fmt.Sprintf("ix%02d_%d", n, k), k == 1, list...)
				for j := range x.Descending {
					x.Descending[j] = (n+j+k)%2 == 0
				}
				if dialect != "mysql" {
					for _, c := range []string{"a", "b", "c"} {
						if k == 1 && !has(list, c) && (dialect != "postgres" || w.major() >= 11) {
							x.IncludeColumns = append(x.IncludeColumns, c)
						}
					}
					if n%2 == k {
						x.Predicate = "(a > 0)"
					}
				}
				if k == 0 && dialect == "postgres" {
					x.Columns = append(append([]string(nil), list...), "lower(b)")
					x.Opclasses = append(x.Opclasses, "btree_ops")
				}
				if k == 0 && dialect == "mysql" && w.major() >= 8 && !strings.Contains(version, "MariaDB") {
					x.Columns = append(append([]string(nil), list...), "(lower(`b`) = 'x')")
					x.Descending = append(x.Descending, false)
				}
				if dialect == "postgres" {
					x.SQL = "CREATE INDEX " + x.IndexName + ";"
				}
				t.idx = append(t.idx, x)
			}
			if dialect == "postgres" {
				for _, am := range []string{"gin", "hash", "gist"} {
					x := xIndex(dialect, t.name, fmt.Sprintf("ix%02d_%s", n, am), false, list[:1]...)
					x.IndexType, x.Opclasses = am, []string{am + "_ops"}
					t.idx = append(t.idx, x)
				}
				ex := xKey(dialect, "EXCLUDE", fmt.Sprintf("ex%02d", n), list...)
				ex.IsDeferrable, ex.IsInitiallyDeferred = uq.IsDeferrable, uq.IsInitiallyDeferred
				if n%2 == 0 {
					ex.ExclusionPredicate = "a IS NOT NULL"
				}
				t.cons = append(t.cons, ex)
			}
			if dialect == "mysql" {
				x := xIndex(dialect, t.name, fmt.Sprintf("ft%02d", n), false, list...)
				x.IndexType = "FULLTEXT"
				t.idx = append(t.idx, x)
			}
			s.tables = append(s.tables, t)
			keys.cons = append(keys.cons, xKey(dialect, "UNIQUE", fmt.Sprintf("keys_uq%02d", n), list...))
		}
		s.tables = append(s.tables, keys)
		fk := abc(dialect, "fk")
		num := 0
		add := func(x xCons) {
			x.ConstraintName = fmt.Sprintf("fk%03d", num)
			num++
			fk.cons = append(fk.cons, x)
		}
		for _, a := range lists {
			for _, b := range lists {
				if len(a) == len(b) {
					add(xFK("", a, s.name, "keys", b))
					add(xFK("", a, w.schemas[1-i].name, "keys", b))
				}
			}
		}
		add(xFK("", []string{"a"}, s.name, "fk", []string{"b"}))
		for _, up := range rules {
			for _, del := range rules {
				for opt := 0; opt < 8; opt++ {
					x := xFK("", []string{"a", "c"}, s.name, "keys", []string{"b", "a"})
					x.UpdateRule, x.DeleteRule = up, del
					switch dialect {
					case "postgres":
						x.IsDeferrable, x.IsNotValid = opt&1 != 0, opt&2 != 0
						x.MatchOption = map[bool]string{true: "MATCH FULL"}[opt&4 != 0]
						add(x)
						if x.IsDeferrable {
							x.IsInitiallyDeferred = true
							add(x)
						}
					case "sqlserver":
						x.IsNotValid = opt == 1
						if opt < 2 {
							add(x)
						}
					default:
						if opt == 0 {
							add(x)
						}
					}
				}
			}
		}
		s.tables = append(s.tables, fk)
		ck := abc(dialect, "ck")
		if w.major() >= 8 {
			for n, e := range []string{"a > 0", "(a > 0) AND (b > 0)", "((a))", "a = ')'", "a IN (1, 2)", "b <> 'x'"} {
				for v := 0; v < 2; v++ {
					x := xKey(dialect, "CHECK", fmt.Sprintf("ck%02d_%d", n, v))
					x.CheckExpr = e
					x.raw = "(" + e + ")"
					switch dialect {
					case "postgres":
						x.raw = "CHECK (" + e + ")"
						if v == 1 {
							x.IsNotValid = true
							x.raw += " NOT VALID"
						}
					case "mysql":
						if !strings.Contains(version, "MariaDB") {
							x.raw = strings.ReplaceAll(x.raw, "'", `\'`)
						}
					case "sqlserver":
						x.IsNotValid = v == 1
					}
					ck.cons = append(ck.cons, x)
				}
			}
		}
		s.tables = append(s.tables, ck)
	}
	return w
}

// clashes lists the databases in which up to max objects have the same name.
func clashes(dialect string, major int, mariaDB bool, max int) (out []func(w *xWorld) string) {
	type obj struct {
		kind          string
		schema, table int
	}
	var objs []obj
	kinds := []string{"INDEX", "UNIQUE", "FOREIGN KEY", "CHECK"}
	if dialect == "postgres" {
		kinds = append(kinds, "EXCLUDE")
	}
	if major < 8 {
		kinds = kinds[:3]
	}
	for _, k := range kinds {
		objs = append(objs, obj{k, 0, 0}, obj{k, 0, 1}, obj{k, 1, 0})
	}
	isIndex := func(o obj) bool { return has([]string{"INDEX", "UNIQUE", "EXCLUDE"}, o.kind) }
	valid := func(a, b obj) bool {
		sameT := a.schema == b.schema && a.table == b.table
		sameS := a.schema == b.schema
		switch dialect {
		case "postgres":
			if isIndex(a) && isIndex(b) && sameS {
				return false
			}
			return !sameT || a.kind == "INDEX" || b.kind == "INDEX"
		case "mysql":
			if isIndex(a) && isIndex(b) && sameT {
				return false
			}
			if a.kind == b.kind && !isIndex(a) && sameS {
				return mariaDB && a.kind == "CHECK"
			}
			if sameT && (a.kind == "FOREIGN KEY" || b.kind == "FOREIGN KEY") && (a.kind == "INDEX" || b.kind == "INDEX") {
				return false
			}
			return true
		}
		if sameT && isIndex(a) && isIndex(b) {
			return false
		}
		return !sameS || a.kind == "INDEX" || b.kind == "INDEX"
	}
	var rec func(from int, cur []obj)
	rec = func(from int, cur []obj) {
		if len(cur) > 0 {
			set := append([]obj(nil), cur...)
			out = append(out, func(w *xWorld) string {
				var key []string
				for i := range w.schemas[:2] {
					w.schemas[i].tables = []xTable{abc(dialect, "t"), abc(dialect, "u")}
				}
				for _, o := range set {
					s := &w.schemas[o.schema]
					t := &s.tables[o.table]
					key = append(key, fmt.Sprintf("%s(%s.%s)", o.kind, s.name, t.name))
					switch o.kind {
					case "INDEX":
						t.idx = append(t.idx, xIndex(dialect, t.name, "n", false, "c", "b"))
					case "FOREIGN KEY":
						t.cons = append(t.cons, xFK("n", []string{"b", "c"}, w.schemas[0].name, "u", []string{"a", "b"}))
					default:
						t.cons = append(t.cons, xKey(dialect, o.kind, "n", "a", "c"))
					}
				}
				return strings.ReplaceAll(strings.Join(key, "+"), " ", "_")
			})
		}
		if len(cur) == max {
			return
		}
	next:
		for i := from; i < len(objs); i++ {
			for _, c := range cur {
				if !valid(c, objs[i]) {
					continue next
				}
			}
			rec(i+1, append(cur, objs[i]))
		}
	}
	rec(0, nil)
	return out
}

// xCase is one database with the filters it is read with.
type xCase struct {
	key     string
	w       *xWorld
	filters []ddl.Filter
}

func xFilters(dialect string) (out []ddl.Filter) {
	one := func(names []string, set func(f *ddl.Filter, list []string)) {
		for _, sub := range subsets(names) {
			if len(sub) > 0 {
				var f ddl.Filter
				set(&f, sub)
				out = append(out, f)
				f.IncludeSystemCatalogs = true
				out = append(out, f)
			}
		}
	}
	main := xSchemas[dialect]
	out = append(out, ddl.Filter{}, ddl.Filter{IncludeSystemCatalogs: true})
	one([]string{main, "s2", "none"}, func(f *ddl.Filter, l []string) { f.Schemas = l })
	one([]string{main, "s2", "none"}, func(f *ddl.Filter, l []string) { f.ExcludeSchemas = l })
	one([]string{"t", "u", "x", "none"}, func(f *ddl.Filter, l []string) { f.Tables = l })
	one([]string{"t", "u", "x", "none"}, func(f *ddl.Filter, l []string) { f.ExcludeTables = l })
	one([]string{"v", "vv", "none"}, func(f *ddl.Filter, l []string) { f.Views = l })
	one([]string{"v", "vv", "none"}, func(f *ddl.Filter, l []string) { f.ExcludeViews = l })
	one([]string{"f", "pr", "none"}, func(f *ddl.Filter, l []string) { f.Routines = l })
	one([]string{"f", "pr", "none"}, func(f *ddl.Filter, l []string) { f.ExcludeRoutines = l })
	one([]string{"PRIMARY KEY", "UNIQUE", "FOREIGN KEY", "CHECK", "EXCLUDE"}, func(f *ddl.Filter, l []string) { f.ConstraintTypes = l })
	one([]string{"EXTENSIONS", "ENUMS", "DOMAINS", "ROUTINES", "VIEWS", "TABLES"}, func(f *ddl.Filter, l []string) { f.ObjectTypes = l })
	if dialect == "postgres" {
		one([]string{"e1", "e2", "none"}, func(f *ddl.Filter, l []string) { f.Enums = l })
		one([]string{"e1", "e2", "none"}, func(f *ddl.Filter, l []string) { f.ExcludeEnums = l })
		one([]string{"d1", "d2", "none"}, func(f *ddl.Filter, l []string) { f.Domains = l })
		one([]string{"d1", "d2", "none"}, func(f *ddl.Filter, l []string) { f.ExcludeDomains = l })
		one([]string{"hstore", "plpgsql", "none"}, func(f *ddl.Filter, l []string) { f.Extensions = l })
		one([]string{"hstore", "plpgsql", "none"}, func(f *ddl.Filter, l []string) { f.ExcludeExtensions = l })
	}
	// Filters of different kinds together.
	for _, schemas := range [][]string{{main}, {"s2"}} {
		for _, ex := range []bool{false, true} {
			for _, tables := range [][]string{nil, {"t"}, {"u", "x"}} {
				for _, views := range [][]string{nil, {"v"}} {
					for mask := 0; mask < 4; mask++ {
						f := ddl.Filter{}
						if ex {
							f.ExcludeSchemas = schemas
						} else {
							f.Schemas = schemas
						}
						if mask&1 == 0 {
							f.Tables = tables
						} else {
							f.ExcludeTables = tables
						}
						if mask&2 == 0 {
							f.Views = views
						} else {
							f.ExcludeViews = views
						}
						out = append(out, f)
					}
				}
			}
		}
	}
	return out
}

var xNames = []string{"Upper", "two words", `quo"te`, "it's", "café", "order", "a.b", "pgboss", "pgx", "pg", "sptotal", "split", "spend", "MSreplicationx", "x_y", "SELECT", "back`tick", "brack]et", "per%cent"}

func xCases(r *core.Runner) (out []xCase) {
	for _, dialect := range []string{"postgres", "mysql", "sqlserver"} {
		for n, version := range xVersions[dialect] {
			add := func(key string, w *xWorld, f ...ddl.Filter) {
				if f == nil {
					f = []ddl.Filter{{}}
				}
				out = append(out, xCase{dialect + "/" + version + "/" + key, w, f})
			}
			add("columns", xColumns(dialect, version))
			add("constraints", xConstraints(dialect, version))
			full := xFull(dialect, version)
			if n == 0 || r.Thorough() {
				for i, f := range xFilters(dialect) {
					add(fmt.Sprintf("filter%d", i), full, f)
				}
			} else {
				add("full", full, ddl.Filter{}, ddl.Filter{IncludeSystemCatalogs: true})
			}
			max := 2
			if r.Thorough() {
				max = 4
			}
			major := full.major()
			for _, c := range clashes(dialect, major, strings.Contains(version, "MariaDB"), max) {
				w := xEmpty(dialect, version)
				add("same-name/"+c(w), w)
			}
			for mask := 0; mask < 1<<8 && dialect != "sqlserver"; mask++ {
				if mask >= 16 && dialect == "mysql" {
					break
				}
				w := xEmpty(dialect, version)
				s := &w.schemas[mask&1]
				on := func(bit int, s string) string {
					if mask>>bit&1 == 1 {
						return s + " comment"
					}
					return ""
				}
				t := abc(dialect, "t")
				t.comment = on(1, "table")
				t.cols[1].Comment = on(2, "column")
				x := xRout(dialect, "FUNCTION", "f", [3]string{"IN", "x", "int"})
				x.Comment = on(3, "routine")
				s.routines = append(s.routines, x)
				if dialect == "postgres" {
					v := xV(dialect, "v", mask&1 == 1, xInt(dialect))
					v.Comment = on(4, "view")
					s.views = append(s.views, v)
					s.enums = append(s.enums, ddl.Enum{EnumName: "e", EnumLabels: []string{"x"}, Comment: on(5, "enum")})
					s.domains = append(s.domains, xDomain{Domain: ddl.Domain{DomainName: "d", CheckNames: []string{"k"}, CheckExprs: []string{"(VALUE > 0)"}, Comment: on(6, "domain")}, base: xInt(dialect)})
					g := xTrigger(dialect, "t", "g")
					g.Comment = on(7, "trigger")
					t.trigs = append(t.trigs, g)
				}
				s.tables = append(s.tables, t)
				add(fmt.Sprintf("comments%02x", mask), w)
			}
			for _, name := range xNames {
				for _, role := range []string{"schema", "table", "column", "view", "view column", "index", "constraint", "trigger", "routine", "enum", "domain", "label"} {
					if w := xNamed(dialect, version, name, role); w != nil {
						f := []ddl.Filter{{}}
						switch role {
						case "schema":
							f = append(f, ddl.Filter{Schemas: []string{name}}, ddl.Filter{ExcludeSchemas: []string{name}})
						case "table":
							f = append(f, ddl.Filter{Tables: []string{name}}, ddl.Filter{ExcludeTables: []string{name}})
						case "view":
							f = append(f, ddl.Filter{Views: []string{name}}, ddl.Filter{ExcludeViews: []string{name}})
						case "routine":
							f = append(f, ddl.Filter{Routines: []string{name}}, ddl.Filter{ExcludeRoutines: []string{name}})
						}
						add(fmt.Sprintf("name/%q/%s", name, role), w, f...)
					}
				}
			}
			for mask := 0; mask < 1<<9; mask++ {
				if w := xKinds(dialect, version, mask); w != nil {
					add(fmt.Sprintf("kinds%03x", mask), w)
				}
			}
		}
	}
	return out
}

// xNamed gives one object the name.
func xNamed(dialect, version, name, role string) *xWorld {
	w := xEmpty(dialect, version)
	s := &w.schemas[0]
	pick := func(r, d string) string {
		if r == role {
			return name
		}
		return d
	}
	if role == "schema" {
		s = &w.schemas[1]
		s.name = name
	}
	t := abc(dialect, pick("table", "t"))
	t.cols[1].ColumnName = pick("column", "b")
	b := t.cols[1].ColumnName
	t.cons = append(t.cons, xKey(dialect, "PRIMARY KEY", "t_pk", b, "a"), xKey(dialect, "UNIQUE", pick("constraint", "t_uq"), "c", b), xFK("t_fk", []string{"a", b}, s.name, t.name, []string{"c", b}))
	if dialect == "postgres" {
		t.cons = append(t.cons, xKey(dialect, "EXCLUDE", "t_ex", b, "c"))
	}
	t.idx = append(t.idx, xIndex(dialect, t.name, pick("index", "t_ix"), false, b, "c"))
	t.trigs = append(t.trigs, xTrigger(dialect, t.name, pick("trigger", "t_trg")))
	s.tables = append(s.tables, t)
	for _, m := range []bool{false, true} {
		if m && dialect != "postgres" {
			continue
		}
		v := xV(dialect, map[bool]string{false: "v", true: "m"}[m], m, xInt(dialect), xTypeList(dialect)[0])
		if role == "view" && m == (len(name)%2 == 0 && dialect == "postgres") {
			v.ViewName = name
		}
		v.Columns[0] = pick("view column", "p")
		s.views = append(s.views, v)
	}
	s.routines = append(s.routines, xRout(dialect, "FUNCTION", pick("routine", "f"), [3]string{"IN", "x", "int"}))
	if dialect == "postgres" {
		s.enums = append(s.enums, ddl.Enum{EnumName: pick("enum", "e"), EnumLabels: []string{"b", pick("label", "a")}})
		s.domains = append(s.domains, xDomain{Domain: ddl.Domain{DomainName: pick("domain", "d"), CheckNames: []string{"k"}, CheckExprs: []string{"(VALUE > 0)"}}, base: xInt(dialect)})
	} else if has([]string{"enum", "domain", "label"}, role) {
		return nil
	}
	return w
}

// xKinds has a subset of unusual objects.
func xKinds(dialect, version string, mask int) *xWorld {
	w := xEmpty(dialect, version)
	s, s2 := &w.schemas[0], &w.schemas[1]
	on := func(bit int) bool { return mask>>bit&1 == 1 }
	n := 9
	switch dialect {
	case "postgres":
		if on(0) {
			s.domains = append(s.domains, xDomain{Domain: ddl.Domain{DomainName: "nocheck"}, base: xInt(dialect)})
		}
		if on(1) {
			s.domains = append(s.domains, xDomain{Domain: ddl.Domain{DomainName: "two", CheckNames: []string{"k1", "k0"}, CheckExprs: []string{"(VALUE > 0)", "(VALUE < 9)"}}, base: xInt(dialect), notValid: on(2)})
		}
		if on(2) {
			s.routines = append(s.routines, xRout(dialect, "AGGREGATE", "agg", [3]string{"", "x", "int"}))
		}
		if on(3) {
			s.routines = append(s.routines, xRout(dialect, "FUNCTION", "f"), xRout(dialect, "FUNCTION", "f", [3]string{"", "x", "integer"}), xRout(dialect, "WINDOW", "win"))
		}
		if on(4) && w.major() >= 11 {
			s2.routines = append(s2.routines, xRout(dialect, "PROCEDURE", "f"))
		}
		if on(5) {
			s.views = append(s.views, xV(dialect, "v", false, xTypeList(dialect)...))
			s2.views = append(s2.views, xV(dialect, "v", true, xInt(dialect)))
		}
		if on(6) {
			s.domains = append(s.domains, xDomain{Domain: ddl.Domain{DomainName: "coll", CollationName: "de_DE"}, base: xTypeList(dialect)[5]})
		}
		if on(7) {
			s.enums = append(s.enums, ddl.Enum{EnumName: "mood", EnumLabels: []string{"z", "y", "x"}})
			s2.enums = append(s2.enums, ddl.Enum{EnumName: "mood", EnumLabels: []string{"x", "y"}})
		}
		if on(8) {
			y := xRout(dialect, "FUNCTION", "f", [3]string{"", "e", "text"})
			y.extension = true
			s.routines = append(s.routines, y)
			w.exts = w.exts[:1]
		}
	case "mysql":
		n = 6
		if on(0) {
			s.routines = append(s.routines, xRout(dialect, "PROCEDURE", "noargs"))
		}
		if on(1) {
			s.routines = append(s.routines, xRout(dialect, "FUNCTION", "nullary"))
		}
		if on(2) {
			s.routines = append(s.routines, xRout(dialect, "FUNCTION", "f", [3]string{"IN", "x", "int"}))
		}
		if on(3) {
			s2.routines = append(s2.routines, xRout(dialect, "PROCEDURE", "f", [3]string{"INOUT", "y", "varchar(10)"}, [3]string{"IN", "a", "int"}))
		}
		if on(4) {
			s.routines = append(s.routines, xRout(dialect, "PROCEDURE", "nullary2", [3]string{"IN", "x", "int"}))
			s2.routines = append(s2.routines, xRout(dialect, "FUNCTION", "nullary2"))
		}
		if on(5) {
			s.views = append(s.views, xV(dialect, "v", false, xTypeList(dialect)...))
			s2.views = append(s2.views, xV(dialect, "v", false, xInt(dialect)))
		}
	case "sqlserver":
		n = 4
		if on(0) {
			s.routines = append(s.routines, xRout(dialect, "FUNCTION", "f1"), xRout(dialect, "FUNCTION", "ff1"), xRout(dialect, "FUNCTION", "fff1"), xRout(dialect, "PROCEDURE", "p1"))
		}
		if on(1) {
			s.views = append(s.views, xV(dialect, "v", false, xTypeList(dialect)...))
			s2.views = append(s2.views, xV(dialect, "v", false, xInt(dialect)))
		}
		if on(2) {
			t := abc(dialect, "heap")
			t.idx = append(t.idx, xIndex(dialect, "heap", "ix", false, "a"))
			s.tables = append(s.tables, t)
		}
		if on(3) {
			t := abc(dialect, "heap")
			t.trigs = append(t.trigs, xTrigger(dialect, "heap", "trg"))
			s2.tables = append(s2.tables, t)
		}
	}
	if mask >= 1<<n {
		return nil
	}
	return w
}

// untranslatable tells if the query uses syntax SQLite does not know, which
// says nothing about the query.
func untranslatable(err error) bool {
	return err != nil && (strings.Contains(err.Error(), "syntax error") || strings.Contains(err.Error(), "no such function") || strings.Contains(err.Error(), "unrecognized token"))
}

func runC16Catalogs(r *core.Runner) {
	skip := map[string]string{}
	for _, d := range []string{"postgres", "mysql", "sqlserver"} {
		for _, v := range xVersions[d] {
			w := xEmpty(d, v)
			c := w.load()
			_, err := w.reportParts(c, ddl.Filter{})
			if untranslatable(err) {
				skip[d+v] = err.Error()
			}
			c.close()
		}
	}
	for _, x := range xCases(r) {
		x := x
		r.Go("catalog/"+x.key, func(t *core.T) {
			if why := skip[x.w.dialect+x.w.version]; why != "" {
				t.Logf("not judged, SQLite cannot execute the query: %s", why)
				return
			}
			c := x.w.load()
			defer c.close()
			for _, f := range x.filters {
				for _, whole := range []bool{false, true} {
					want := x.w.expect(f, whole)
					var got []string
					var err error
					if whole {
						got, err = x.w.reportWhole(c, f)
					} else {
						got, err = x.w.reportParts(c, f)
					}
					t.Step(1)
					for _, line := range want {
						t.State(x.w.dialect, line)
					}
					if err != nil {
						t.Fail("catalog-error", "filter %s: %v", filterText(f), err)
						continue
					}
					if len(want) > 0 {
						t.Nontrivial()
					}
					sig := "catalog-report"
					if whole && x.w.dialect == "mysql" && onlyShared(want, got) {
						sig = "shared-name"
					}
					catalogDiff(t, sig, fmt.Sprintf("filter %s, whole catalog %v", filterText(f), whole), want, got)
				}
			}
		})
	}
}

// filterText writes the parts of a filter that are set.
func filterText(f ddl.Filter) string {
	b, _ := json.Marshal(f)
	var m map[string]any
	json.Unmarshal(b, &m)
	out := []string{}
	for _, k := range sortedKeys(m) {
		if v := fmt.Sprint(m[k]); v != "<nil>" && v != "" && v != "false" {
			out = append(out, k+"="+v)
		}
	}
	return "{" + strings.Join(out, " ") + "}"
}

func catalogDiff(t *core.T, sig, what string, want, got []string) {
	var lines []string
	i, j := 0, 0
	for i < len(want) || j < len(got) {
		switch {
		case i < len(want) && j < len(got) && want[i] == got[j]:
			i++
			j++
		case j == len(got) || i < len(want) && want[i] < got[j]:
			lines = append(lines, "missing: "+want[i])
			i++
		default:
			lines = append(lines, "reported, but not in the database: "+got[j])
			j++
		}
	}
	if n := len(lines); n > 8 {
		lines = append(lines[:8], fmt.Sprintf("and %d more", n-8))
	}
	if len(lines) > 0 {
		t.Fail(sig, "%s\n%s", what, strings.Join(lines, "\n"))
	}
}

// onlyShared tells whether got is want without some of those constraints
// whose table has another constraint of the same name.
func onlyShared(want, got []string) bool {
	type id struct{ TableSchema, TableName, ConstraintName string }
	names := map[id]int{}
	of := func(line string) (x id) {
		if strings.HasPrefix(line, "constraint ") {
			json.Unmarshal([]byte(line[strings.Index(line, "{"):]), &x)
		}
		return x
	}
	for _, line := range want {
		names[of(line)]++
	}
	left := map[string]int{}
	for _, line := range got {
		left[line]++
		names[of(line)] += 1000
	}
	for _, line := range want {
		if left[line] > 0 {
			left[line]--
		} else if n := names[of(line)]; of(line) == (id{}) || n%1000 < 2 || n < 1000 {
			return false
		}
	}
	for _, n := range left {
		if n > 0 {
			return false
		}
	}
	return true
}
