package checks

import (
	"encoding/json"
	"fmt"
	"sort"
	"strings"

	"github.com/bokwoon95/sqddl/ddl"
)

// The description of a Postgres, MySQL or SQL Server database: what the
// introspector has to report, plus what only the system catalog knows.
type (
	xType struct {
		raw               string // as the server prints it
		col               ddl.Column
		oid, mod          int64 // Postgres, system and user type of SQL Server
		prec, scale, size int64
	}
	xCol struct {
		ddl.Column
		typ        xType
		rawDefault any // nil: none
		rawGen     string
		extra      string
		domain     string
		seed, step int64
		dropped    bool
	}
	xCons struct {
		ddl.Constraint
		raw string
	}
	xTable struct {
		name, comment string
		system        bool
		extension     bool
		cols          []xCol
		cons          []xCons
		idx           []ddl.Index
		trigs         []ddl.Trigger
	}
	xView struct {
		ddl.View
		types     []xType
		system    bool
		extension bool
	}
	xRoutine struct {
		ddl.Routine
		params         [][3]string // mode, name, type
		extension, sys bool
	}
	xDomain struct {
		ddl.Domain
		base     xType
		notValid bool
	}
	xSchema struct {
		name     string
		system   bool
		tables   []xTable
		views    []xView
		enums    []ddl.Enum
		domains  []xDomain
		routines []xRoutine
		extTypes []string // enums and domains that belong to an extension
	}
	xWorld struct {
		dialect, version string
		schemas          []xSchema
		exts             []string
	}
)

func (w *xWorld) major() (n int) {
	fmt.Sscanf(w.version, "%d", &n)
	return n
}

// load puts the description into a system catalog.
func (w *xWorld) load() *sysCat {
	c := newSysCat(w.dialect, w.version)
	switch w.dialect {
	case "postgres":
		w.loadPostgres(c)
	case "mysql":
		w.loadMySQL(c)
	case "sqlserver":
		w.loadSQLServer(c)
	}
	return c
}

func attnums(cols []xCol, names []string) (out []int64) {
	for _, n := range names {
		num := int64(0)
		for i, c := range cols {
			if c.ColumnName == n {
				num = int64(i + 1)
			}
		}
		out = append(out, num)
	}
	return out
}

func (w *xWorld) loadPostgres(c *sysCat) {
	rels := map[string]int64{}
	tabs := map[string]xTable{}
	nsp := map[string]int64{}
	addType := func(t xType) {
		c.types[[2]int64{t.oid, t.mod}] = t.raw
	}
	addRel := func(s *xSchema, name, kind string) int64 {
		oid := c.oid()
		c.ins("pg_class", "oid", oid, "relname", name, "relnamespace", nsp[s.name], "relkind", kind)
		rels[s.name+"\x00"+name] = oid
		c.regclass[s.name+"\x00"+name] = oid
		return oid
	}
	addAtt := func(rel int64, num int64, col xCol) {
		kv := []any{"attrelid", rel, "attname", col.ColumnName, "atttypid", col.typ.oid, "attnum", num, "atttypmod", col.typ.mod,
			"attnotnull", col.IsNotNull, "attisdropped", col.dropped, "attcollation", map[string]int64{"C": 950, "de_DE": 951, "default": 100}[col.CollationName]}
		if c.major >= 10 {
			kv = append(kv, "attidentity", map[string]string{"GENERATED BY DEFAULT AS IDENTITY": "d", "GENERATED ALWAYS AS IDENTITY": "a"}[col.ColumnIdentity])
		}
		if c.major >= 12 {
			gen := ""
			if col.rawGen != "" {
				gen = "s"
			}
			kv = append(kv, "attgenerated", gen)
		}
		c.ins("pg_attribute", kv...)
		addType(col.typ)
		if col.rawGen != "" {
			c.ins("pg_attrdef", "oid", c.oid(), "adrelid", rel, "adnum", num, "adbin", col.rawGen)
		} else if col.rawDefault != nil {
			c.ins("pg_attrdef", "oid", c.oid(), "adrelid", rel, "adnum", num, "adbin", col.rawDefault)
		}
		c.comment("pg_class", rel, num, col.Comment)
	}
	types := map[int64]bool{}
	for _, s := range w.schemas {
		nsp[s.name] = c.oid()
		c.ins("pg_namespace", "oid", nsp[s.name], "nspname", s.name)
	}
	ext := map[string]int64{}
	for _, e := range w.exts {
		ext[e] = c.oid()
		c.ins("pg_extension", "oid", ext[e], "extname", e, "extversion", "1.0")
	}
	member := func(class string, oid int64) {
		c.ins("pg_depend", "classid", c.regclass[class], "objid", oid, "objsubid", 0, "refclassid", c.regclass["pg_extension"], "refobjid", ext[w.exts[0]], "refobjsubid", 0, "deptype", "e")
	}
	for i := range w.schemas {
		s := &w.schemas[i]
		for _, e := range s.enums {
			oid := int64(0)
			for _, t := range s.tables {
				for _, col := range t.cols {
					if col.IsEnum && col.typ.raw == e.EnumName {
						oid = col.typ.oid
					}
				}
			}
			if oid == 0 {
				oid = c.oid()
			}
			types[oid] = true
			c.ins("pg_type", "oid", oid, "typname", e.EnumName, "typnamespace", nsp[s.name], "typtype", "e", "typbasetype", 0, "typtypmod", -1, "typcollation", 0)
			// The rows are not in the order of the labels.
			for n := len(e.EnumLabels) - 1; n >= 0; n-- {
				c.ins("pg_enum", "oid", c.oid(), "enumtypid", oid, "enumsortorder", float64(n)+0.5, "enumlabel", e.EnumLabels[n])
			}
			c.comment("pg_type", oid, 0, e.Comment)
			if has(s.extTypes, e.EnumName) {
				member("pg_type", oid)
			}
		}
		for _, d := range s.domains {
			oid := c.oid()
			addType(d.base)
			var coll any = int64(0)
			base := int64(0)
			if d.CollationName != "" {
				coll, base = int64(951), 100
			}
			if !types[d.base.oid] {
				types[d.base.oid] = true
				c.ins("pg_type", "oid", d.base.oid, "typname", d.base.raw, "typtype", "b", "typtypmod", -1, "typcollation", base)
			}
			var def any
			if d.ColumnDefault != "" {
				def = d.ColumnDefault
			}
			c.ins("pg_type", "oid", oid, "typname", d.DomainName, "typnamespace", nsp[s.name], "typtype", "d", "typbasetype", d.base.oid, "typtypmod", d.base.mod, "typnotnull", d.IsNotNull, "typdefault", def, "typcollation", coll)
			for n := range d.CheckNames {
				con := c.oid()
				c.ins("pg_constraint", "oid", con, "conname", d.CheckNames[n], "connamespace", nsp[s.name], "contype", "c", "conrelid", 0, "contypid", oid, "conindid", 0, "confrelid", 0)
				c.texts[fmt.Sprintf("constraint:%d", con)] = "CHECK " + d.CheckExprs[n] + map[bool]string{true: " NOT VALID"}[d.notValid]
			}
			c.comment("pg_type", oid, 0, d.Comment)
			if has(s.extTypes, d.DomainName) {
				member("pg_type", oid)
			}
			c.regclass["domain\x00"+d.DomainName] = oid
		}
		for _, t := range s.tables {
			oid := addRel(s, t.name, "r")
			tabs[s.name+"\x00"+t.name] = t
			c.comment("pg_class", oid, 0, t.comment)
			if t.extension {
				member("pg_class", oid)
			}
			addAtt(oid, -1, xCol{Column: ddl.Column{ColumnName: "ctid", IsNotNull: true}})
			for n, col := range t.cols {
				if col.domain != "" {
					base := col.typ
					col.typ.oid = c.regclass["domain\x00"+col.domain]
					addType(base)
				}
				addAtt(oid, int64(n+1), col)
				if col.IsEnum && !types[col.typ.oid] {
					types[col.typ.oid] = true
					c.ins("pg_type", "oid", col.typ.oid, "typname", col.typ.raw, "typnamespace", nsp[s.name], "typtype", "e", "typbasetype", 0, "typtypmod", -1)
				}
			}
			for _, g := range t.trigs {
				id := c.oid()
				c.ins("pg_trigger", "oid", id, "tgrelid", oid, "tgname", g.TriggerName, "tgisinternal", false)
				c.texts[fmt.Sprintf("trigger:%d", id)] = strings.TrimSuffix(g.SQL, ";")
				c.comment("pg_trigger", id, 0, g.Comment)
			}
		}
		for _, v := range s.views {
			kind := "v"
			if v.IsMaterialized {
				kind = "m"
			}
			oid := addRel(s, v.ViewName, kind)
			if v.IsMaterialized {
				c.ins("pg_matviews", "schemaname", s.name, "matviewname", v.ViewName, "definition", v.SQL)
			} else {
				c.ins("pg_views", "schemaname", s.name, "viewname", v.ViewName, "definition", v.SQL)
			}
			c.texts[fmt.Sprintf("view:%d", oid)] = v.SQL
			if v.extension {
				member("pg_class", oid)
			}
			c.comment("pg_class", oid, 0, v.Comment)
			t := xTable{name: v.ViewName, idx: v.Indexes}
			for n, name := range v.Columns {
				col := xCol{Column: ddl.Column{ColumnName: name, IsEnum: has(v.EnumColumns, name)}, typ: v.types[n]}
				addAtt(oid, int64(n+1), col)
				if col.IsEnum && !types[col.typ.oid] {
					types[col.typ.oid] = true
					c.ins("pg_type", "oid", col.typ.oid, "typname", col.typ.raw, "typnamespace", nsp[s.name], "typtype", "e", "typbasetype", 0, "typtypmod", -1)
				}
				t.cols = append(t.cols, col)
			}
			tabs[s.name+"\x00"+v.ViewName] = t
			for _, g := range v.Triggers {
				id := c.oid()
				c.ins("pg_trigger", "oid", id, "tgrelid", oid, "tgname", g.TriggerName, "tgisinternal", false)
				c.texts[fmt.Sprintf("trigger:%d", id)] = strings.TrimSuffix(g.SQL, ";")
				c.comment("pg_trigger", id, 0, g.Comment)
			}
		}
		addRel(s, "some_seq", "S")
		for _, x := range s.routines {
			id := c.oid()
			kv := []any{"oid", id, "proname", x.RoutineName, "pronamespace", nsp[s.name]}
			if c.major >= 11 {
				kv = append(kv, "prokind", map[string]string{"FUNCTION": "f", "PROCEDURE": "p", "AGGREGATE": "a", "WINDOW": "w"}[x.RoutineType])
			} else {
				kv = append(kv, "proisagg", x.RoutineType == "AGGREGATE", "proiswindow", x.RoutineType == "WINDOW")
			}
			c.ins("pg_proc", kv...)
			c.texts[fmt.Sprintf("args:%d", id)] = x.IdentityArguments
			if x.RoutineType == "AGGREGATE" {
				c.texts[fmt.Sprintf("function:%d", id)] = "aggregate"
			} else {
				c.texts[fmt.Sprintf("function:%d", id)] = strings.TrimSuffix(x.SQL, ";")
			}
			if x.RoutineType != "PROCEDURE" {
				c.texts[fmt.Sprintf("result:%d", id)] = x.Attrs["returnType"]
			}
			c.comment("pg_proc", id, 0, x.Comment)
			if x.extension {
				member("pg_proc", id)
			} else {
				c.ins("pg_depend", "classid", c.regclass["pg_proc"], "objid", id, "objsubid", 0, "refclassid", c.regclass["pg_namespace"], "refobjid", nsp[s.name], "refobjsubid", 0, "deptype", "n")
			}
		}
	}
	rule := func(s string) string {
		return map[string]string{"": "a", "NO ACTION": "a", "RESTRICT": "r", "CASCADE": "c", "SET NULL": "n", "SET DEFAULT": "d"}[s]
	}
	ams := map[string]int{"": 0, "btree": 0, "gist": 1, "gin": 2, "hash": 3}
	addIdx := func(s *xSchema, t xTable, x ddl.Index, primary, exclusion bool) int64 {
		oid := c.oid()
		am := ams[x.IndexType]
		c.ins("pg_class", "oid", oid, "relname", x.IndexName, "relnamespace", nsp[s.name], "relkind", "i", "relam", 400+am)
		all := append(append([]string(nil), x.Columns...), x.IncludeColumns...)
		var classes []int64
		for range x.Columns {
			classes = append(classes, int64(500+am))
		}
		var pred any
		if x.Predicate != "" {
			pred = x.Predicate
		}
		kv := []any{"indexrelid", oid, "indrelid", rels[s.name+"\x00"+t.name], "indnatts", len(all), "indisunique", x.IsUnique, "indisprimary", primary, "indisexclusion", exclusion, "indisvalid", true,
			"indkey", c.array(attnums(t.cols, all)), "indclass", c.array(classes), "indpred", pred}
		if c.major >= 11 {
			kv = append(kv, "indnkeyatts", len(x.Columns))
		}
		c.ins("pg_index", kv...)
		for n, col := range all {
			if attnums(t.cols, []string{col})[0] > 0 {
				col = pgQuoteIdent(col)
			}
			c.texts[fmt.Sprintf("index:%d:%d", oid, n+1)] = col
		}
		c.texts[fmt.Sprintf("index:%d", oid)] = strings.TrimSuffix(x.SQL, ";")
		return oid
	}
	keyIdx := map[string]int64{}
	for pass := 0; pass < 2; pass++ {
		for i := range w.schemas {
			s := &w.schemas[i]
			for _, t := range s.tables {
				rel := rels[s.name+"\x00"+t.name]
				for _, x := range t.cons {
					if (x.ConstraintType == "FOREIGN KEY") != (pass == 1) {
						continue
					}
					id, index, confrel := c.oid(), int64(0), int64(0)
					var conkey, confkey, ops any
					conkey = c.array(attnums(t.cols, x.Columns))
					switch x.ConstraintType {
					case "PRIMARY KEY", "UNIQUE", "EXCLUDE":
						index = addIdx(s, t, ddl.Index{IndexName: x.ConstraintName, IndexType: x.ExclusionIndexType, IsUnique: x.ConstraintType != "EXCLUDE", Columns: x.Columns, Predicate: x.ExclusionPredicate}, x.ConstraintType == "PRIMARY KEY", x.ConstraintType == "EXCLUDE")
						keyIdx[s.name+"\x00"+t.name] = index
						if x.ConstraintType == "EXCLUDE" {
							var list []int64
							for _, op := range x.ExclusionOperators {
								list = append(list, map[string]int64{"=": 600, "&&": 601, "<>": 602}[op])
							}
							ops = c.array(list)
						}
					case "FOREIGN KEY":
						key := x.ReferencesSchema + "\x00" + x.ReferencesTable
						confrel, index = rels[key], keyIdx[key]
						confkey = c.array(attnums(tabs[key].cols, x.ReferencesColumns))
						tg := c.oid()
						c.ins("pg_trigger", "oid", tg, "tgrelid", rel, "tgname", fmt.Sprintf("RI_ConstraintTrigger_c_%d", tg), "tgisinternal", true, "tgconstraint", id)
					case "CHECK":
						c.texts[fmt.Sprintf("constraint:%d", id)] = x.raw
					}
					c.ins("pg_constraint", "oid", id, "conname", x.ConstraintName, "connamespace", nsp[s.name], "contype", map[string]string{"PRIMARY KEY": "p", "UNIQUE": "u", "EXCLUDE": "x", "FOREIGN KEY": "f", "CHECK": "c"}[x.ConstraintType],
						"conrelid", rel, "contypid", 0, "conindid", index, "confrelid", confrel, "conkey", conkey, "confkey", confkey, "conexclop", ops,
						"condeferrable", x.IsDeferrable, "condeferred", x.IsInitiallyDeferred, "convalidated", !x.IsNotValid,
						"confupdtype", rule(x.UpdateRule), "confdeltype", rule(x.DeleteRule), "confmatchtype", map[string]string{"": "s", "MATCH FULL": "f"}[x.MatchOption])
				}
				if pass == 0 {
					for _, x := range t.idx {
						addIdx(s, t, x, false, false)
					}
				}
			}
			for _, v := range s.views {
				if pass == 0 {
					for _, x := range v.Indexes {
						addIdx(s, tabs[s.name+"\x00"+v.ViewName], x, false, false)
					}
				}
			}
		}
	}
}

func (w *xWorld) loadMySQL(c *sysCat) {
	maria := strings.Contains(w.version, "MariaDB")
	null := func(s string) any {
		if s == "" {
			return nil
		}
		return s
	}
	for _, s := range w.schemas {
		addCol := func(table string, n int, col xCol) {
			nullable := "YES"
			if col.IsNotNull {
				nullable = "NO"
			}
			var prec, scale, size any
			if col.typ.prec > 0 {
				prec, scale = col.typ.prec, col.typ.scale
			}
			if col.typ.size > 0 {
				size = col.typ.size
			}
			coll := null(col.CollationName)
			if col.typ.size > 0 && coll == nil {
				coll = dbCollation
			}
			c.ins("columns", "table_schema", s.name, "table_name", table, "column_name", col.ColumnName, "ordinal_position", n+1, "column_default", col.rawDefault, "is_nullable", nullable,
				"data_type", col.typ.raw, "column_type", col.typ.raw, "character_maximum_length", size, "numeric_precision", prec, "numeric_scale", scale, "collation_name", coll,
				"extra", col.extra, "column_comment", col.Comment, "generation_expression", col.rawGen)
		}
		addStat := func(t string, x ddl.Index) {
			for n, col := range x.Columns {
				kv := []any{"table_schema", s.name, "table_name", t, "non_unique", !x.IsUnique, "index_schema", s.name, "index_name", x.IndexName, "seq_in_index", n + 1, "index_type", x.IndexType, "comment", ""}
				coll := any("A")
				if n < len(x.Descending) && x.Descending[n] {
					coll = "D"
				}
				if x.IndexType == "FULLTEXT" {
					coll = nil
				}
				kv = append(kv, "collation", coll)
				if strings.HasPrefix(col, "(") {
					kv = append(kv, "column_name", nil, "expression", strings.ReplaceAll(col[1:len(col)-1], "'", `\'`))
				} else {
					kv = append(kv, "column_name", col)
				}
				c.ins("statistics", kv...)
			}
		}
		for _, t := range s.tables {
			c.ins("tables", "table_schema", s.name, "table_name", t.name, "table_type", "BASE TABLE", "table_comment", t.comment)
			for n, col := range t.cols {
				addCol(t.name, n, col)
			}
			for _, x := range t.cons {
				name := x.ConstraintName
				c.ins("table_constraints", "constraint_schema", s.name, "constraint_name", name, "table_schema", s.name, "table_name", t.name, "constraint_type", x.ConstraintType)
				switch x.ConstraintType {
				case "CHECK":
					kv := []any{"constraint_schema", s.name, "constraint_name", name, "check_clause", x.raw}
					if maria {
						kv = append(kv, "table_name", t.name)
					}
					c.ins("check_constraints", kv...)
				case "FOREIGN KEY":
					match := "NONE"
					if x.MatchOption != "" {
						match = strings.TrimPrefix(x.MatchOption, "MATCH ")
					}
					rule := func(s string) string {
						if s == "" {
							return "NO ACTION"
						}
						return s
					}
					c.ins("referential_constraints", "constraint_schema", s.name, "constraint_name", name, "match_option", match, "update_rule", rule(x.UpdateRule), "delete_rule", rule(x.DeleteRule), "table_name", t.name, "referenced_table_name", x.ReferencesTable)
					covered := false
					for _, y := range t.cons {
						covered = covered || y.ConstraintName == name && y.ConstraintType == "UNIQUE"
					}
					if !covered {
						addStat(t.name, ddl.Index{IndexName: name, IndexType: "BTREE", Columns: x.Columns})
					}
				default:
					addStat(t.name, ddl.Index{IndexName: name, IndexType: "BTREE", IsUnique: true, Columns: x.Columns})
				}
				// The rows are not in the order of the columns.
				for n := len(x.Columns) - 1; n >= 0; n-- {
					kv := []any{"constraint_schema", s.name, "constraint_name", name, "table_schema", s.name, "table_name", t.name, "column_name", x.Columns[n], "ordinal_position", n + 1}
					if x.ConstraintType == "FOREIGN KEY" {
						kv = append(kv, "referenced_table_schema", x.ReferencesSchema, "referenced_table_name", x.ReferencesTable, "referenced_column_name", x.ReferencesColumns[n])
					}
					c.ins("key_column_usage", kv...)
				}
			}
			for _, x := range t.idx {
				addStat(t.name, x)
			}
			for _, g := range t.trigs {
				c.ins("triggers", "trigger_schema", s.name, "trigger_name", g.TriggerName, "event_manipulation", g.Attrs["eventManipulation"], "event_object_schema", s.name, "event_object_table", t.name, "action_statement", g.SQL, "action_timing", g.Attrs["actionTiming"])
			}
		}
		for _, v := range s.views {
			c.ins("tables", "table_schema", s.name, "table_name", v.ViewName, "table_type", "VIEW", "table_comment", "VIEW")
			c.ins("views", "table_schema", s.name, "table_name", v.ViewName, "view_definition", v.SQL)
			for n := len(v.Columns) - 1; n >= 0; n-- {
				addCol(v.ViewName, n, xCol{Column: ddl.Column{ColumnName: v.Columns[n]}, typ: v.types[n]})
			}
		}
		for _, x := range s.routines {
			det := map[string]string{"true": "YES", "false": "NO"}[x.Attrs["isDeterministic"]]
			c.ins("routines", "specific_name", x.RoutineName, "routine_schema", s.name, "routine_name", x.RoutineName, "routine_type", x.RoutineType, "dtd_identifier", null(x.Attrs["returnType"]),
				"routine_body", x.Attrs["routineBody"], "routine_definition", x.SQL, "is_deterministic", det, "sql_data_access", x.Attrs["sqlDataAccess"], "security_type", x.Attrs["securityType"], "routine_comment", x.Comment)
			if x.RoutineType == "FUNCTION" {
				c.ins("parameters", "specific_schema", s.name, "specific_name", x.RoutineName, "ordinal_position", 0, "dtd_identifier", x.Attrs["returnType"], "routine_type", x.RoutineType)
			}
			for n := len(x.params) - 1; n >= 0; n-- {
				p := x.params[n]
				mode := null(p[0])
				if x.RoutineType == "FUNCTION" {
					mode = "IN"
				}
				c.ins("parameters", "specific_schema", s.name, "specific_name", x.RoutineName, "ordinal_position", n+1, "parameter_mode", mode, "parameter_name", p[1], "dtd_identifier", p[2], "routine_type", x.RoutineType)
			}
		}
	}
}

func (w *xWorld) loadSQLServer(c *sysCat) {
	ids, sch := map[string]int64{}, map[string]int64{}
	tabs := map[string]xTable{}
	object := func(s *xSchema, name, typ string, parent int64, system bool) int64 {
		id := c.oid()
		kv := []any{"object_id", id, "name", name, "schema_id", sch[s.name], "parent_object_id", parent, "type", typ, "is_ms_shipped", system}
		c.ins("objects", kv...)
		switch typ {
		case "U":
			c.ins("tables", kv...)
		case "V":
			c.ins("views", kv...)
		}
		return id
	}
	module := func(id int64, def string) { c.ins("sql_modules", "object_id", id, "definition", def) }
	types := map[int64]bool{}
	addCol := func(s *xSchema, id int64, n int, col xCol) {
		system := col.typ.oid
		if !types[col.typ.mod] {
			types[col.typ.mod] = true
			name := strings.ToLower(col.typ.raw)
			c.ins("types", "name", name, "system_type_id", system, "user_type_id", col.typ.mod)
			c.types[[2]int64{col.typ.mod}] = name
		}
		var coll any
		if has([]string{"varchar", "nvarchar", "char", "nchar", "text"}, col.typ.raw) {
			coll = dbCollation
			if col.CollationName != "" {
				coll = col.CollationName
			}
		}
		def := int64(0)
		if col.rawDefault != nil {
			def = object(s, fmt.Sprintf("DF_%d_%d", id, n), "D", id, false)
			c.texts[fmt.Sprintf("definition:%d", def)] = col.rawDefault
		}
		c.ins("columns", "object_id", id, "name", col.ColumnName, "column_id", n+1, "system_type_id", system, "user_type_id", col.typ.mod, "max_length", col.typ.size, "precision", col.typ.prec, "scale", col.typ.scale, "collation_name", coll,
			"is_nullable", !col.IsNotNull, "is_identity", col.ColumnIdentity != "", "is_computed", col.rawGen != "", "default_object_id", def)
		key := fmt.Sprintf("property:%d:%s:", id, col.ColumnName)
		c.texts[key+"ordinal"] = int64(n + 1)
		if col.typ.size != 0 {
			c.texts[key+"charmaxlen"] = col.typ.size
		}
		if col.ColumnIdentity != "" {
			c.ins("identity_columns", "object_id", id, "name", col.ColumnName, "column_id", n+1, "seed_value", col.seed, "increment_value", col.step)
		}
		if col.rawGen != "" {
			c.ins("computed_columns", "object_id", id, "name", col.ColumnName, "column_id", n+1, "definition", col.rawGen, "is_persisted", col.GeneratedExprStored)
		}
	}
	addIdx := func(s *xSchema, t xTable, id int64, n int, x ddl.Index, pk, uq bool) {
		var pred any
		if x.Predicate != "" {
			pred = x.Predicate
		}
		c.ins("indexes", "object_id", id, "name", x.IndexName, "index_id", n, "type_desc", x.IndexType, "is_unique", x.IsUnique, "is_primary_key", pk, "is_unique_constraint", uq, "has_filter", pred != nil, "filter_definition", pred)
		num := 0
		cols := attnums(t.cols, x.Columns)
		for i := len(cols) - 1; i >= 0; i-- {
			num++
			c.ins("index_columns", "object_id", id, "index_id", n, "index_column_id", num, "column_id", cols[i], "key_ordinal", i+1, "is_descending_key", i < len(x.Descending) && x.Descending[i], "is_included_column", false)
		}
		for _, a := range attnums(t.cols, x.IncludeColumns) {
			num++
			c.ins("index_columns", "object_id", id, "index_id", n, "index_column_id", num, "column_id", a, "key_ordinal", 0, "is_descending_key", false, "is_included_column", true)
		}
	}
	triggers := func(s *xSchema, id int64, trigs []ddl.Trigger) {
		for _, g := range trigs {
			module(object(s, g.TriggerName, "TR", id, false), g.SQL)
		}
	}
	for i := range w.schemas {
		s := &w.schemas[i]
		sch[s.name] = c.oid()
		c.ins("schemas", "schema_id", sch[s.name], "name", s.name)
		for _, t := range s.tables {
			id := object(s, t.name, "U", 0, t.system)
			ids[s.name+"\x00"+t.name] = id
			tabs[s.name+"\x00"+t.name] = t
			for n, col := range t.cols {
				addCol(s, id, n, col)
			}
			triggers(s, id, t.trigs)
		}
		for _, v := range s.views {
			id := object(s, v.ViewName, "V", 0, v.system)
			module(id, v.SQL)
			t := xTable{name: v.ViewName}
			for n, name := range v.Columns {
				col := xCol{Column: ddl.Column{ColumnName: name}, typ: v.types[n]}
				addCol(s, id, n, col)
				t.cols = append(t.cols, col)
			}
			for n, x := range v.Indexes {
				addIdx(s, t, id, n+1, x, false, false)
			}
			triggers(s, id, v.Triggers)
		}
		for _, x := range s.routines {
			typ := "P"
			if x.RoutineType == "FUNCTION" {
				typ = []string{"FN", "IF", "TF"}[len(x.RoutineName)%3]
			}
			module(object(s, x.RoutineName, typ, 0, x.sys), x.SQL)
		}
	}
	for i := range w.schemas {
		s := &w.schemas[i]
		for _, t := range s.tables {
			id := ids[s.name+"\x00"+t.name]
			n := 1
			clustered := false
			for _, x := range t.cons {
				clustered = clustered || x.IsClustered
			}
			if !clustered {
				c.ins("indexes", "object_id", id, "name", nil, "index_id", 0, "type_desc", "HEAP", "is_unique", false, "is_primary_key", false, "is_unique_constraint", false)
			}
			for _, x := range t.cons {
				switch x.ConstraintType {
				case "PRIMARY KEY", "UNIQUE":
					num, desc := n+1, "NONCLUSTERED"
					if x.IsClustered {
						num, desc = 1, "CLUSTERED"
					} else {
						n++
					}
					object(s, x.ConstraintName, map[string]string{"PRIMARY KEY": "PK", "UNIQUE": "UQ"}[x.ConstraintType], id, false)
					addIdx(s, t, id, num, ddl.Index{IndexName: x.ConstraintName, IndexType: desc, IsUnique: true, Columns: x.Columns}, x.ConstraintType == "PRIMARY KEY", x.ConstraintType == "UNIQUE")
				case "FOREIGN KEY":
					fk := object(s, x.ConstraintName, "F", id, false)
					rule := func(s string) string {
						if s == "" {
							return "NO_ACTION"
						}
						return strings.ReplaceAll(s, " ", "_")
					}
					key := x.ReferencesSchema + "\x00" + x.ReferencesTable
					c.ins("foreign_keys", "object_id", fk, "name", x.ConstraintName, "schema_id", sch[s.name], "parent_object_id", id, "referenced_object_id", ids[key], "is_disabled", false, "is_not_trusted", x.IsNotValid, "delete_referential_action_desc", rule(x.DeleteRule), "update_referential_action_desc", rule(x.UpdateRule))
					a, b := attnums(t.cols, x.Columns), attnums(tabs[key].cols, x.ReferencesColumns)
					for k := len(a) - 1; k >= 0; k-- {
						c.ins("foreign_key_columns", "constraint_object_id", fk, "constraint_column_id", k+1, "parent_object_id", id, "parent_column_id", a[k], "referenced_object_id", ids[key], "referenced_column_id", b[k])
					}
				case "CHECK":
					ck := object(s, x.ConstraintName, "C", id, false)
					c.ins("check_constraints", "object_id", ck, "name", x.ConstraintName, "schema_id", sch[s.name], "parent_object_id", id, "is_disabled", false, "is_not_trusted", x.IsNotValid, "definition", x.raw)
				}
			}
			for _, x := range t.idx {
				n++
				addIdx(s, t, id, n, x, false, false)
			}
		}
	}
}

// xReport is what an introspection reports, one line per object.
type xReport []string

func (r *xReport) add(kind, schema string, v any) {
	b, _ := json.Marshal(v)
	*r = append(*r, fmt.Sprintf("%s %s %s", kind, schema, b))
}

func (r xReport) sorted() []string {
	sort.Strings(r)
	return r
}

// unwrapped removes brackets around the whole of an expression.
func unwrapped(s string) string {
	for strings.HasPrefix(s, "(") && strings.HasSuffix(s, ")") {
		level := 0
		for i := range s {
			switch s[i] {
			case '(':
				level++
			case ')':
				level--
			}
			if level == 0 && i < len(s)-1 {
				return s
			}
		}
		s = s[1 : len(s)-1]
	}
	return s
}

func (r *xReport) column(dialect string, c ddl.Column, n int, keys bool) {
	if c.NumericPrecision == "0" {
		c.NumericPrecision = ""
	}
	if c.NumericPrecision == "" {
		c.NumericScale = ""
	}
	if dialect == "sqlserver" && strings.HasPrefix(strings.ToLower(c.ColumnType), "float") {
		c.NumericPrecision = ""
	}
	c.IsGenerated = false
	if dialect != "postgres" {
		c.ColumnDefault, c.GeneratedExpr = unwrapped(c.ColumnDefault), unwrapped(c.GeneratedExpr)
	}
	if !c.IsEnum {
		c.ColumnType = strings.ToLower(strings.ReplaceAll(c.ColumnType, " ", ""))
	}
	if strings.HasSuffix(c.ColumnType, "[]") {
		c.CharacterLength, c.NumericPrecision, c.NumericScale = "", "", ""
	}
	if !keys {
		c.IsPrimaryKey, c.IsUnique = false, false
		c.ReferencesSchema, c.ReferencesTable, c.ReferencesColumn, c.UpdateRule, c.DeleteRule = "", "", "", "", ""
		c.IsDeferrable, c.IsInitiallyDeferred = false, false
	}
	s := c.TableSchema
	r.add(fmt.Sprintf("column #%d", n), s, c)
}

func (r *xReport) index(x ddl.Index) {
	if len(x.Opclasses) > len(x.Columns) {
		x.Opclasses = x.Opclasses[:len(x.Columns)]
	}
	x.IncludeColumns = append([]string(nil), x.IncludeColumns...)
	sort.Strings(x.IncludeColumns)
	x.Predicate = unwrapped(x.Predicate)
	r.add("index", x.TableSchema, x)
}

func (r *xReport) constraint(x ddl.Constraint) {
	x.CheckExpr = unwrapped(x.CheckExpr)
	r.add("constraint", x.TableSchema, x)
}

func (r *xReport) routine(x ddl.Routine) {
	if x.RoutineType == "AGGREGATE" {
		x.SQL = ""
	}
	r.add("routine", x.RoutineSchema, x)
}

func (r *xReport) view(v ddl.View) {
	v.Indexes, v.Triggers = nil, nil
	v.ColumnTypes = strings.Split(strings.ToLower(strings.Join(v.ColumnTypes, "|")), "|")
	r.add("view", v.ViewSchema, v)
}

// expect says what has to be reported. whole is about WriteCatalog, otherwise
// about the single functions.
func (w *xWorld) expect(f ddl.Filter, whole bool) []string {
	var r xReport
	in := func(name string, include, exclude []string) bool {
		if len(include) > 0 {
			return has(include, name)
		}
		return !has(exclude, name)
	}
	object := func(s string) bool { return !whole || len(f.ObjectTypes) == 0 || has(f.ObjectTypes, s) }
	cons := func(s string) bool { return len(f.ConstraintTypes) == 0 || has(f.ConstraintTypes, s) }
	if object("EXTENSIONS") && w.dialect == "postgres" {
		for _, e := range w.exts {
			if in(e, f.Extensions, f.ExcludeExtensions) {
				r.add("extension", "", e)
			}
		}
	}
	for _, s := range w.schemas {
		if s.system && !f.IncludeSystemCatalogs || !in(s.name, f.Schemas, f.ExcludeSchemas) {
			continue
		}
		if object("ENUMS") {
			for _, e := range s.enums {
				if in(e.EnumName, f.Enums, f.ExcludeEnums) {
					e.EnumSchema = s.name
					r.add("enum", s.name, e)
				}
			}
		}
		if object("DOMAINS") {
			for _, d := range s.domains {
				if in(d.DomainName, f.Domains, f.ExcludeDomains) {
					d.DomainSchema = s.name
					d.UnderlyingType = d.base.raw
					r.add("domain", s.name, d.Domain)
				}
			}
		}
		if object("ROUTINES") {
			for _, x := range s.routines {
				if in(x.RoutineName, f.Routines, f.ExcludeRoutines) && !x.extension && (!x.sys || f.IncludeSystemCatalogs) {
					x.RoutineSchema = s.name
					r.routine(x.Routine)
				}
			}
		}
		if object("VIEWS") {
			for _, v := range s.views {
				if !in(v.ViewName, f.Views, f.ExcludeViews) || v.system && !f.IncludeSystemCatalogs {
					continue
				}
				v.ViewSchema = s.name
				r.view(v.View)
				if judgeViewParts(f, whole) {
					for _, x := range v.Indexes {
						x.TableSchema, x.TableName, x.IsViewIndex = s.name, v.ViewName, true
						r.index(x)
					}
					for _, x := range v.Triggers {
						x.TableSchema, x.TableName, x.IsViewTrigger = s.name, v.ViewName, true
						r.add("trigger", s.name, x)
					}
				}
			}
		}
		if object("TABLES") {
			for _, t := range s.tables {
				if !in(t.name, f.Tables, f.ExcludeTables) || t.system && !f.IncludeSystemCatalogs {
					continue
				}
				r.add("table", s.name, t.name+" "+t.comment)
				n := 0
				for _, col := range t.cols {
					if col.dropped {
						continue
					}
					x := col.Column
					x.TableSchema, x.TableName = s.name, t.name
					x.ColumnType, x.CharacterLength, x.NumericPrecision, x.NumericScale = col.typ.col.ColumnType, col.typ.col.CharacterLength, col.typ.col.NumericPrecision, col.typ.col.NumericScale
					for _, k := range t.cons {
						if !cons(k.ConstraintType) || len(k.Columns) != 1 || k.Columns[0] != x.ColumnName {
							continue
						}
						switch k.ConstraintType {
						case "PRIMARY KEY":
							x.IsPrimaryKey = true
						case "UNIQUE":
							x.IsUnique = true
						case "FOREIGN KEY":
							x.ReferencesSchema, x.ReferencesTable, x.ReferencesColumn = k.ReferencesSchema, k.ReferencesTable, k.ReferencesColumns[0]
							x.UpdateRule, x.DeleteRule, x.IsDeferrable, x.IsInitiallyDeferred = k.UpdateRule, k.DeleteRule, k.IsDeferrable, k.IsInitiallyDeferred
						}
					}
					r.column(w.dialect, x, n, whole)
					n++
				}
				for _, k := range t.cons {
					if cons(k.ConstraintType) {
						x := k.Constraint
						x.TableSchema, x.TableName = s.name, t.name
						r.constraint(x)
					}
				}
				for _, x := range t.idx {
					x.TableSchema, x.TableName = s.name, t.name
					r.index(x)
				}
				for _, x := range t.trigs {
					x.TableSchema, x.TableName = s.name, t.name
					r.add("trigger", s.name, x)
				}
			}
		}
	}
	return r.sorted()
}

// judgeViewParts says if the indexes and triggers of views are compared: a
// filter of tables does not say what happens to them, and only the whole
// catalog leaves them out together with their view.
func judgeViewParts(f ddl.Filter, whole bool) bool {
	return len(f.Tables) == 0 && len(f.ExcludeTables) == 0 && (whole || len(f.Views) == 0 && len(f.ExcludeViews) == 0)
}

// reportWhole reads everything with WriteCatalog.
func (w *xWorld) reportWhole(c *sysCat, f ddl.Filter) ([]string, error) {
	dbi := ddl.NewDatabaseIntrospector(w.dialect, c)
	dbi.Filter = f
	var cat ddl.Catalog
	if err := dbi.WriteCatalog(&cat); err != nil {
		return nil, err
	}
	var r xReport
	if cat.CatalogName != dbName || cat.DefaultCollation != dbCollation || cat.CurrentSchema != map[string]string{"postgres": "public", "mysql": dbName, "sqlserver": "dbo"}[w.dialect] {
		r.add("catalog", "", []string{cat.CatalogName, cat.DefaultCollation, cat.CurrentSchema})
	}
	for _, e := range cat.Extensions {
		r.add("extension", "", e)
	}
	for _, s := range cat.Schemas {
		for _, e := range s.Enums {
			r.add("enum", s.SchemaName, e)
		}
		for _, e := range s.Domains {
			r.add("domain", s.SchemaName, e)
		}
		for _, e := range s.Routines {
			r.routine(e)
		}
		for _, v := range s.Views {
			r.view(v)
			if judgeViewParts(f, true) {
				for _, x := range v.Indexes {
					r.index(x)
				}
				for _, x := range v.Triggers {
					r.add("trigger", s.SchemaName, x)
				}
			}
		}
		for _, t := range s.Tables {
			r.add("table", s.SchemaName, t.TableName+" "+t.Comment)
			for n, x := range t.Columns {
				r.column(w.dialect, x, n, true)
			}
			for _, x := range t.Constraints {
				r.constraint(x)
			}
			for _, x := range t.Indexes {
				r.index(x)
			}
			for _, x := range t.Triggers {
				r.add("trigger", s.SchemaName, x)
			}
		}
	}
	return r.sorted(), nil
}

// reportParts reads everything with the single functions.
func (w *xWorld) reportParts(c *sysCat, f ddl.Filter) ([]string, error) {
	dbi := ddl.NewDatabaseIntrospector(w.dialect, c)
	dbi.Filter = f
	var err error
	if dbi.VersionNums, err = dbi.GetVersionNums(); err != nil {
		return nil, err
	}
	var r xReport
	exts, err := dbi.GetExtensions()
	if err != nil {
		return nil, err
	}
	for _, e := range exts {
		r.add("extension", "", e)
	}
	enums, err := dbi.GetEnums()
	if err != nil {
		return nil, err
	}
	for _, e := range enums {
		r.add("enum", e.EnumSchema, e)
	}
	domains, err := dbi.GetDomains()
	if err != nil {
		return nil, err
	}
	for _, e := range domains {
		r.add("domain", e.DomainSchema, e)
	}
	routines, err := dbi.GetRoutines()
	if err != nil {
		return nil, err
	}
	for _, e := range routines {
		r.routine(e)
	}
	views, err := dbi.GetViews()
	if err != nil {
		return nil, err
	}
	for _, v := range views {
		r.view(v)
	}
	tables, err := dbi.GetTables()
	if err != nil {
		return nil, err
	}
	for _, t := range tables {
		r.add("table", t.TableSchema, t.TableName+" "+t.Comment)
	}
	columns, err := dbi.GetColumns()
	if err != nil {
		return nil, err
	}
	num := map[[2]string]int{}
	for _, x := range columns {
		k := [2]string{x.TableSchema, x.TableName}
		r.column(w.dialect, x, num[k], false)
		num[k]++
	}
	constraints, err := dbi.GetConstraints()
	if err != nil {
		return nil, err
	}
	for _, x := range constraints {
		r.constraint(x)
	}
	indexes, err := dbi.GetIndexes()
	if err != nil {
		return nil, err
	}
	for _, x := range indexes {
		if !x.IsViewIndex || judgeViewParts(f, false) {
			r.index(x)
		}
	}
	triggers, err := dbi.GetTriggers()
	if err != nil {
		return nil, err
	}
	for _, x := range triggers {
		if !x.IsViewTrigger || judgeViewParts(f, false) {
			r.add("trigger", x.TableSchema, x)
		}
	}
	return r.sorted(), nil
}
