package checks

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"encoding/json"
	"errors"
	"fmt"
	"regexp"
	"sort"
	"strings"

	sqlite3 "github.com/mattn/go-sqlite3"

	"verifmc/core"
)

// sysCat is the system catalog of a Postgres, MySQL or SQL Server database,
// held in SQLite so that the introspection queries can be executed.
type sysCat struct {
	dialect, version string
	major            int
	db               *sql.DB
	next             int64
	types            map[[2]int64]string // what format_type says, TYPE_NAME in SQL Server
	texts            map[string]any      // what the functions that print an object say
	desc             map[[3]int64]string // comments: catalog, object, column
	regclass         map[string]int64    // objects and catalogs by name
	arrays           map[string]bool
}

const (
	dbCollation = "db_collation"
	dbName      = "shop"
)

var pgCatalogs = map[string]string{
	"pg_namespace":   "oid, nspname",
	"pg_class":       "oid, relname, relnamespace, relkind, relam",
	"pg_attrdef":     "oid, adrelid, adnum, adbin",
	"pg_collation":   "oid, collname, collnamespace",
	"pg_type":        "oid, typname, typnamespace, typtype, typbasetype, typtypmod, typnotnull, typdefault, typcollation, typrelid, typelem",
	"pg_enum":        "oid, enumtypid, enumsortorder, enumlabel",
	"pg_constraint":  "oid, conname, connamespace, contype, conrelid, contypid, conindid, confrelid, conkey, confkey, conexclop, condeferrable, condeferred, convalidated, confupdtype, confdeltype, confmatchtype",
	"pg_am":          "oid, amname",
	"pg_opclass":     "oid, opcname",
	"pg_operator":    "oid, oprname",
	"pg_description": "objoid, classoid, objsubid, description",
	"pg_extension":   "oid, extname, extversion, extnamespace",
	"pg_depend":      "classid, objid, objsubid, refclassid, refobjid, refobjsubid, deptype",
	"pg_trigger":     "oid, tgrelid, tgname, tgisinternal, tgconstraint",
	"pg_views":       "schemaname, viewname, viewowner, definition",
	"pg_matviews":    "schemaname, matviewname, matviewowner, definition",
	"pg_database":    "oid, datname, datcollate, datctype",
}

var mysqlCatalogs = map[string]string{
	"tables":                  "table_catalog, table_schema, table_name, table_type, engine, table_comment",
	"columns":                 "table_catalog, table_schema, table_name, column_name, ordinal_position, column_default, is_nullable, data_type, character_maximum_length, numeric_precision, numeric_scale, datetime_precision, collation_name, column_type, column_key, extra, column_comment, generation_expression",
	"table_constraints":       "constraint_catalog, constraint_schema, constraint_name, table_schema, table_name, constraint_type",
	"key_column_usage":        "constraint_catalog, constraint_schema, constraint_name, table_catalog, table_schema, table_name, column_name, ordinal_position, position_in_unique_constraint, referenced_table_schema, referenced_table_name, referenced_column_name",
	"referential_constraints": "constraint_catalog, constraint_schema, constraint_name, unique_constraint_schema, unique_constraint_name, match_option, update_rule, delete_rule, table_name, referenced_table_name",
	"routines":                "specific_name, routine_catalog, routine_schema, routine_name, routine_type, data_type, dtd_identifier, routine_body, routine_definition, is_deterministic, sql_data_access, security_type, routine_comment",
	"parameters":              "specific_catalog, specific_schema, specific_name, ordinal_position, parameter_mode, parameter_name, data_type, dtd_identifier, routine_type",
	"triggers":                "trigger_catalog, trigger_schema, trigger_name, event_manipulation, event_object_schema, event_object_table, action_order, action_statement, action_timing",
	"views":                   "table_catalog, table_schema, table_name, view_definition, check_option, is_updatable",
}

var mssqlCatalogs = map[string]string{
	"schemas":             "schema_id, name, principal_id",
	"objects":             "object_id, name, schema_id, parent_object_id, type, type_desc, is_ms_shipped",
	"tables":              "object_id, name, schema_id, parent_object_id, type, type_desc, is_ms_shipped",
	"views":               "object_id, name, schema_id, parent_object_id, type, type_desc, is_ms_shipped",
	"columns":             "object_id, name, column_id, system_type_id, user_type_id, max_length, precision, scale, collation_name, is_nullable, is_identity, is_computed, default_object_id",
	"types":               "name, system_type_id, user_type_id, schema_id, is_user_defined",
	"identity_columns":    "object_id, name, column_id, seed_value, increment_value, last_value",
	"computed_columns":    "object_id, name, column_id, definition, is_persisted",
	"indexes":             "object_id, name, index_id, type, type_desc, is_unique, is_primary_key, is_unique_constraint, has_filter, filter_definition, is_disabled, is_hypothetical",
	"index_columns":       "object_id, index_id, index_column_id, column_id, key_ordinal, is_descending_key, is_included_column",
	"foreign_keys":        "object_id, name, schema_id, parent_object_id, referenced_object_id, is_disabled, is_not_trusted, delete_referential_action_desc, update_referential_action_desc",
	"foreign_key_columns": "constraint_object_id, constraint_column_id, parent_object_id, parent_column_id, referenced_object_id, referenced_column_id",
	"check_constraints":   "object_id, name, schema_id, parent_object_id, parent_column_id, is_disabled, is_not_trusted, definition",
	"default_constraints": "object_id, name, schema_id, parent_object_id, parent_column_id, definition",
	"sql_modules":         "object_id, definition, uses_ansi_nulls, uses_quoted_identifier",
}

// aggregate collects the values of json_agg, string_agg and group_concat.
type aggregate struct {
	json bool
	rows [][]any // value, separator, sort keys
}

func (a *aggregate) Step(vals ...any) { a.rows = append(a.rows, append([]any(nil), vals...)) }

func (a *aggregate) Done() (any, error) {
	if len(a.rows) == 0 {
		return nil, nil
	}
	sort.SliceStable(a.rows, func(i, j int) bool {
		for k := 2; k < len(a.rows[i]); k++ {
			if c := compareAny(a.rows[i][k], a.rows[j][k]); c != 0 {
				return c < 0
			}
		}
		return false
	})
	var vals []any
	for _, r := range a.rows {
		vals = append(vals, sqlText(r[0]))
	}
	if a.json {
		b, err := json.Marshal(vals)
		return string(b), err
	}
	var out []string
	for _, v := range vals {
		if v != nil {
			out = append(out, fmt.Sprint(v))
		}
	}
	if out == nil {
		return nil, nil
	}
	return strings.Join(out, fmt.Sprint(a.rows[0][1])), nil
}

func compareAny(a, b any) int {
	f := func(v any) (float64, bool) {
		switch v := v.(type) {
		case int64:
			return float64(v), true
		case float64:
			return v, true
		}
		return 0, false
	}
	if x, ok := f(a); ok {
		if y, ok := f(b); ok {
			switch {
			case x < y:
				return -1
			case x > y:
				return 1
			}
			return 0
		}
	}
	return strings.Compare(fmt.Sprint(a), fmt.Sprint(b))
}

// likeMatch is LIKE of the dialect.
func likeMatch(dialect, pattern, s string) bool {
	var re strings.Builder
	re.WriteString("(?s)")
	if dialect != "postgres" {
		re.WriteString("(?i)")
	}
	re.WriteString("^")
	p := []rune(pattern)
	for i := 0; i < len(p); i++ {
		switch {
		case p[i] == '%':
			re.WriteString(".*")
		case p[i] == '_':
			re.WriteString(".")
		case p[i] == '\\' && dialect != "sqlserver" && i+1 < len(p):
			i++
			re.WriteString(regexp.QuoteMeta(string(p[i])))
		case p[i] == '[' && dialect == "sqlserver" && strings.ContainsRune(string(p[i:]), ']'):
			end := i + strings.IndexRune(string(p[i:]), ']')
			re.WriteString(string(p[i : end+1]))
			i = end
		default:
			re.WriteString(regexp.QuoteMeta(string(p[i])))
		}
	}
	re.WriteString("$")
	return regexp.MustCompile(re.String()).MatchString(s)
}

func pgQuoteIdent(s string) string {
	if regexp.MustCompile(`^[a-z_][a-z0-9_$]*$`).MatchString(s) && !has([]string{"order", "select", "table", "user", "group"}, s) {
		return s
	}
	return `"` + strings.ReplaceAll(s, `"`, `""`) + `"`
}

// pgParseName splits a possibly quoted qualified name as the server does.
func pgParseName(s string) (parts []string) {
	for {
		if strings.HasPrefix(s, `"`) {
			var b strings.Builder
			i := 1
			for ; i < len(s); i++ {
				if s[i] == '"' {
					if i+1 < len(s) && s[i+1] == '"' {
						i++
					} else {
						break
					}
				}
				b.WriteByte(s[i])
			}
			if i >= len(s) {
				return nil
			}
			parts, s = append(parts, b.String()), s[i+1:]
		} else {
			m := regexp.MustCompile(`^[\pL_][\pL\pN_$]*`).FindString(s)
			if m == "" {
				return nil
			}
			parts, s = append(parts, strings.ToLower(m)), s[len(m):]
		}
		if s == "" {
			return parts
		}
		if s[0] != '.' {
			return nil
		}
		s = s[1:]
	}
}

// newSysCat makes an empty catalog.
func newSysCat(dialect, version string) *sysCat {
	c := &sysCat{dialect: dialect, version: version, next: 16384, types: map[[2]int64]string{}, texts: map[string]any{}, desc: map[[3]int64]string{}, regclass: map[string]int64{}, arrays: map[string]bool{}}
	fmt.Sscanf(version, "%d", &c.major)
	c.db = sql.OpenDB(catConnector{&sqlite3.SQLiteDriver{ConnectHook: c.functions}})
	c.db.SetMaxOpenConns(1)
	create := func(schema string, tables map[string]string) {
		if schema != "" {
			c.exec("ATTACH ':memory:' AS " + schema)
			schema += "."
		}
		for _, t := range sortedKeys(tables) {
			cols := strings.Split(tables[t], ", ")
			if dialect != "postgres" {
				for i := range cols {
					cols[i] += " COLLATE NOCASE"
				}
			}
			c.exec("CREATE TABLE " + schema + t + " (" + strings.Join(cols, ", ") + ")")
		}
	}
	switch dialect {
	case "postgres":
		create("", pgCatalogs)
		att := "attrelid, attname, atttypid, attnum, atttypmod, attnotnull, atthasdef, attisdropped, attcollation"
		idx := "indexrelid, indrelid, indnatts, indisunique, indisprimary, indisexclusion, indisvalid, indkey, indclass, indpred, indexprs"
		proc := "oid, proname, pronamespace"
		if c.major >= 10 {
			att += ", attidentity"
		}
		if c.major >= 12 {
			att += ", attgenerated"
		}
		if c.major >= 11 {
			idx += ", indnkeyatts"
			proc += ", prokind"
		} else {
			proc += ", proisagg, proiswindow"
		}
		create("", map[string]string{"pg_attribute": att, "pg_index": idx, "pg_proc": proc, "x_unnest": "src, val, ord"})
		for name := range pgCatalogs {
			c.regclass[name] = c.oid()
		}
		c.regclass["pg_proc"] = c.oid()
		c.ins("pg_database", "oid", c.oid(), "datname", dbName, "datcollate", dbCollation)
		c.ins("pg_database", "oid", c.oid(), "datname", "postgres", "datcollate", "other")
		for i, am := range []string{"btree", "gist", "gin", "hash"} {
			c.ins("pg_am", "oid", int64(400+i), "amname", am)
			c.ins("pg_opclass", "oid", int64(500+i), "opcname", am+"_ops")
		}
		for i, op := range []string{"=", "&&", "<>"} {
			c.ins("pg_operator", "oid", int64(600+i), "oprname", op)
		}
		c.ins("pg_collation", "oid", int64(100), "collname", "default")
		c.ins("pg_collation", "oid", int64(950), "collname", "C")
		c.ins("pg_collation", "oid", int64(951), "collname", "de_DE")
	case "mysql":
		create("information_schema", mysqlCatalogs)
		st := "table_catalog, table_schema, table_name, non_unique, index_schema, index_name, seq_in_index, column_name, collation, sub_part, nullable, index_type, comment"
		if c.major >= 8 && !strings.Contains(version, "MariaDB") {
			st += ", is_visible, expression"
		}
		create2 := map[string]string{"statistics": st}
		if c.major >= 8 {
			cc := "constraint_catalog, constraint_schema, constraint_name, check_clause"
			if strings.Contains(version, "MariaDB") {
				cc += ", table_name, level"
			}
			create2["check_constraints"] = cc
		}
		for _, t := range sortedKeys(create2) {
			c.exec("CREATE TABLE information_schema." + t + " (" + strings.ReplaceAll(create2[t], ",", " COLLATE NOCASE,") + " COLLATE NOCASE)")
		}
	case "sqlserver":
		create("sys", mssqlCatalogs)
	}
	return c
}

type catConnector struct{ d *sqlite3.SQLiteDriver }

func (c catConnector) Connect(context.Context) (driver.Conn, error) { return c.d.Open(":memory:") }
func (c catConnector) Driver() driver.Driver                        { return c.d }

func (c *sysCat) close() { c.db.Close() }

func (c *sysCat) oid() int64 {
	c.next++
	return c.next
}

func (c *sysCat) exec(q string, args ...any) {
	if _, err := c.db.Exec(q, args...); err != nil {
		core.Broken("%s: %v", q, err)
	}
}

// ins adds a row, given as column, value pairs.
func (c *sysCat) ins(table string, kv ...any) {
	var cols, marks []string
	var vals []any
	for i := 0; i < len(kv); i += 2 {
		cols, marks = append(cols, kv[i].(string)), append(marks, "?")
		vals = append(vals, kv[i+1])
	}
	switch c.dialect {
	case "mysql":
		table = "information_schema." + table
	case "sqlserver":
		table = "sys." + table
	}
	c.exec("INSERT INTO "+table+" ("+strings.Join(cols, ", ")+") VALUES ("+strings.Join(marks, ", ")+")", vals...)
}

// array stores a Postgres array or vector.
func (c *sysCat) array(vals []int64) string {
	s := strings.Trim(strings.ReplaceAll(fmt.Sprint(vals), " ", ","), "[]")
	if !c.arrays[s] {
		c.arrays[s] = true
		for i, v := range vals {
			c.ins("x_unnest", "src", s, "val", v, "ord", i+1)
		}
	}
	return s
}

func (c *sysCat) comment(catalog string, oid, sub int64, text string) {
	if text != "" {
		c.desc[[3]int64{c.regclass[catalog], oid, sub}] = text
		c.ins("pg_description", "objoid", oid, "classoid", c.regclass[catalog], "objsubid", sub, "description", text)
	}
}

// sqlText turns what the driver passes to functions into text; NULL is passed
// as an empty byte slice.
func sqlText(v any) any {
	if b, ok := v.([]byte); ok {
		if b == nil {
			return nil
		}
		return string(b)
	}
	return v
}

func asInt(v any) int64 {
	switch v := v.(type) {
	case int64:
		return v
	case float64:
		return int64(v)
	}
	return -1
}

func (c *sysCat) functions(conn *sqlite3.SQLiteConn) error {
	var errs []error
	reg := func(name string, f func(args ...any) (any, error)) {
		errs = append(errs, conn.RegisterFunc(name, f, false))
	}
	str := func(name string, f func(args ...any) any) {
		reg(name, func(args ...any) (any, error) {
			for i, a := range args {
				args[i] = sqlText(a)
			}
			return f(args...), nil
		})
	}
	constant := func(name, v string) { str(name, func(...any) any { return v }) }
	errs = append(errs, conn.RegisterAggregator("x_json", func() *aggregate { return &aggregate{json: true} }, false))
	errs = append(errs, conn.RegisterAggregator("x_str", func() *aggregate { return &aggregate{} }, false))
	str("like", func(args ...any) any {
		if args[0] == nil || args[1] == nil {
			return nil
		}
		return likeMatch(c.dialect, fmt.Sprint(args[0]), fmt.Sprint(args[1]))
	})
	str("concat", func(args ...any) any {
		var b strings.Builder
		for _, a := range args {
			if a == nil {
				if c.dialect == "mysql" {
					return nil
				}
				continue
			}
			b.WriteString(fmt.Sprint(a))
		}
		return b.String()
	})
	text := func(fn, kind string) {
		str(fn, func(args ...any) any {
			key := fmt.Sprintf("%s:%d", kind, asInt(args[0]))
			if kind == "index" && len(args) > 1 && asInt(args[1]) > 0 {
				key += fmt.Sprintf(":%d", asInt(args[1]))
			}
			return c.texts[key]
		})
	}
	switch c.dialect {
	case "postgres":
		constant("current_database", dbName)
		constant("current_schema", "public")
		constant("version", "PostgreSQL "+c.version)
		str("current_setting", func(args ...any) any {
			if args[0] == "server_version" {
				return c.version
			}
			return nil
		})
		str("quote_ident", func(args ...any) any {
			if args[0] == nil {
				return nil
			}
			return pgQuoteIdent(fmt.Sprint(args[0]))
		})
		str("format", func(args ...any) any {
			s, rest := fmt.Sprint(args[0]), args[1:]
			return regexp.MustCompile(`%[Is]`).ReplaceAllStringFunc(s, func(m string) string {
				v := fmt.Sprint(rest[0])
				rest = rest[1:]
				if m == "%I" {
					v = pgQuoteIdent(v)
				}
				return v
			})
		})
		str("starts_with", func(args ...any) any { return strings.HasPrefix(fmt.Sprint(args[0]), fmt.Sprint(args[1])) })
		str("x_regclass", func(args ...any) any { return c.regclass[fmt.Sprint(args[0])] })
		str("to_regclass", func(args ...any) any {
			if args[0] == nil {
				return nil
			}
			parts := pgParseName(fmt.Sprint(args[0]))
			if len(parts) == 1 {
				parts = []string{"public", parts[0]}
			}
			if oid, ok := c.regclass[strings.Join(parts, "\x00")]; ok {
				return oid
			}
			return nil
		})
		str("format_type", func(args ...any) any {
			if s, ok := c.types[[2]int64{asInt(args[0]), asInt(args[1])}]; ok {
				return s
			}
			return "???"
		})
		str("pg_get_expr", func(args ...any) any { return args[0] })
		str("col_description", func(args ...any) any {
			if s, ok := c.desc[[3]int64{c.regclass["pg_class"], asInt(args[0]), asInt(args[1])}]; ok {
				return s
			}
			return nil
		})
		str("obj_description", func(args ...any) any {
			for k, s := range c.desc {
				if k[1] == asInt(args[0]) && k[2] == 0 && (len(args) == 1 || k[0] == c.regclass[fmt.Sprint(args[1])]) {
					return s
				}
			}
			return nil
		})
		text("pg_get_constraintdef", "constraint")
		text("pg_get_indexdef", "index")
		text("pg_get_viewdef", "view")
		text("pg_get_triggerdef", "trigger")
		text("pg_get_function_identity_arguments", "args")
		text("pg_get_function_result", "result")
		reg("pg_get_functiondef", func(args ...any) (any, error) {
			key := fmt.Sprintf("function:%d", asInt(args[0]))
			if c.texts[key] == "aggregate" {
				return nil, errors.New(`ERROR: "agg" is an aggregate function (SQLSTATE 42809)`)
			}
			return c.texts[key], nil
		})
	case "mysql":
		constant("database", dbName)
		constant("version", c.version)
	case "sqlserver":
		constant("DB_NAME", dbName)
		constant("SCHEMA_NAME", "dbo")
		str("SERVERPROPERTY", func(args ...any) any {
			switch strings.ToLower(fmt.Sprint(args[0])) {
			case "collation":
				return dbCollation
			case "productversion":
				return c.version
			}
			return nil
		})
		str("TYPE_NAME", func(args ...any) any {
			if s, ok := c.types[[2]int64{asInt(args[0])}]; ok {
				return s
			}
			return nil
		})
		str("ODBCSCALE", func(args ...any) any {
			switch asInt(args[0]) {
			case 106, 108:
				return args[1]
			case 48, 52, 56, 127, 104:
				return int64(0)
			case 41, 42, 43:
				return args[1]
			}
			return nil
		})
		str("COLUMNPROPERTY", func(args ...any) any {
			return c.texts[fmt.Sprintf("property:%d:%v:%s", asInt(args[0]), args[1], strings.ToLower(fmt.Sprint(args[2])))]
		})
		text("OBJECT_DEFINITION", "definition")
	}
	return errors.Join(errs...)
}

// QueryContext executes a query of the dialect.
func (c *sysCat) QueryContext(ctx context.Context, query string, args ...any) (*sql.Rows, error) {
	return c.db.QueryContext(ctx, c.translate(query), args...)
}

func (c *sysCat) ExecContext(ctx context.Context, query string, args ...any) (sql.Result, error) {
	return nil, errors.New("introspection executes a statement: " + query)
}

func (c *sysCat) PrepareContext(ctx context.Context, query string) (*sql.Stmt, error) {
	return c.db.PrepareContext(ctx, c.translate(query))
}

var (
	reRegclass = regexp.MustCompile(`('[^']*')::regclass\b`)
	reCast     = regexp.MustCompile(`::\w+(\[\])?`)
	reUnnest   = regexp.MustCompile(`(?is)\b((?:CROSS\s+|LEFT\s+|INNER\s+)?JOIN)\s+(?:LATERAL\s+)?unnest\(([\w.]+)\)\s+WITH\s+ORDINALITY\s+AS\s+(\w+)\s*\((\w+),\s*(\w+)\)(\s+ON\b)?`)
	reAny      = regexp.MustCompile(`(?i)([\w.]+)\s*=\s*ANY\s*\(([\w.]+)\)`)
	reIsNull   = regexp.MustCompile(`(?i)\bISNULL\s*\(`)
	reOrder    = regexp.MustCompile(`(?is)^\s*(?:ORDER\s+BY)\s+(.*)$`)
	reWithin   = regexp.MustCompile(`(?is)^\s*WITHIN\s+GROUP\s*\(\s*ORDER\s+BY\s+([^()]*)\)`)
)

// translate rewrites the syntax SQLite lacks.
func (c *sysCat) translate(q string) string {
	q = stripComments(q)
	switch c.dialect {
	case "postgres":
		q = strings.ReplaceAll(q, "pg_catalog.", "")
		q = reRegclass.ReplaceAllString(q, "x_regclass($1)")
		q = reCast.ReplaceAllString(q, "")
		q = reAny.ReplaceAllString(q, "EXISTS (SELECT 1 FROM x_unnest WHERE x_unnest.src = $2 AND x_unnest.val = $1)")
		q = reUnnest.ReplaceAllStringFunc(q, func(s string) string {
			m := reUnnest.FindStringSubmatch(s)
			join := m[1]
			if strings.HasPrefix(strings.ToUpper(join), "CROSS") {
				join = "JOIN"
			}
			s = fmt.Sprintf("%s (SELECT src AS x_src, val AS %s, ord AS %s FROM x_unnest) AS %s ON %s.x_src = %s", join, m[4], m[5], m[3], m[3], m[2])
			if m[6] != "" {
				s += " AND"
			}
			return s
		})
		q = rewriteCall(q, "json_agg", func(inner, after string) (string, int) {
			expr, key := cutOrder(inner)
			return "x_json(" + expr + ", 0" + key + ")", 0
		})
		q = rewriteCall(q, "string_agg", func(inner, after string) (string, int) {
			expr, key := cutOrder(inner)
			return "x_str(" + expr + key + ")", 0
		})
	case "mysql":
		q = strings.ReplaceAll(q, "@@collation_database", "'"+dbCollation+"'")
		q = rewriteCall(q, "group_concat", func(inner, after string) (string, int) {
			sep := "','"
			if i := topLevel(inner, "SEPARATOR"); i >= 0 {
				inner, sep = inner[:i], inner[i+len("SEPARATOR"):]
			}
			expr, key := cutOrder(inner)
			return "x_str(CONCAT(" + expr + "), " + sep + key + ")", 0
		})
	case "sqlserver":
		q = reIsNull.ReplaceAllString(q, "ifnull(")
		q = rewriteCall(q, "string_agg", func(inner, after string) (string, int) {
			if m := reWithin.FindStringSubmatch(after); m != nil {
				return "x_str(" + inner + ", " + m[1] + ")", len(m[0])
			}
			return "x_str(" + inner + ")", 0
		})
	}
	return q
}

func stripComments(q string) string {
	var b strings.Builder
	for i := 0; i < len(q); i++ {
		switch {
		case q[i] == '\'':
			j := i + 1
			for j < len(q) && q[j] != '\'' {
				j++
			}
			b.WriteString(q[i:min(j+1, len(q))])
			i = j
		case strings.HasPrefix(q[i:], "--"):
			for i < len(q) && q[i] != '\n' {
				i++
			}
			b.WriteByte('\n')
		case strings.HasPrefix(q[i:], "/*"):
			i += strings.Index(q[i:], "*/") + 1
			b.WriteByte(' ')
		default:
			b.WriteByte(q[i])
		}
	}
	return b.String()
}

// topLevel finds a word outside brackets and strings.
func topLevel(s, word string) int {
	level := 0
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '(':
			level++
		case ')':
			level--
		case '\'':
			for i++; i < len(s) && s[i] != '\''; i++ {
			}
		default:
			if level == 0 && len(s) >= i+len(word) && strings.EqualFold(s[i:i+len(word)], word) && (i == 0 || strings.ContainsRune(" \n\t)'", rune(s[i-1]))) {
				return i
			}
		}
	}
	return -1
}

func cutOrder(s string) (expr, key string) {
	i := topLevel(s, "ORDER BY")
	if i < 0 {
		return s, ""
	}
	return s[:i], ", " + s[i+len("ORDER BY"):]
}

// rewriteCall replaces calls of a function.
func rewriteCall(q, name string, f func(inner, after string) (string, int)) string {
	re := regexp.MustCompile(`(?i)\b` + name + `\s*\(`)
	var b strings.Builder
	for {
		m := re.FindStringIndex(q)
		if m == nil {
			b.WriteString(q)
			return b.String()
		}
		level, end := 1, m[1]
		for ; end < len(q) && level > 0; end++ {
			switch q[end] {
			case '(':
				level++
			case ')':
				level--
			case '\'':
				for end++; end < len(q) && q[end] != '\''; end++ {
				}
			}
		}
		if level > 0 {
			b.WriteString(q)
			return b.String()
		}
		s, n := f(q[m[1]:end-1], q[end:])
		b.WriteString(q[:m[0]] + s)
		q = q[end+n:]
	}
}
