package checks

import (
	"database/sql/driver"
	"fmt"
	"io"
	"strings"
	"sync"

	sqlite3 "github.com/mattn/go-sqlite3"

	"verifmc/core"
)

// The catalogue views of SQL Server that generated migrations query, filled from the
// model and queried with SQLite.

type sysServer struct {
	conn *sqlite3.SQLiteConn
	db   *mDB
}

var sysPool = sync.Pool{New: func() any {
	s := &sysServer{}
	drv := &sqlite3.SQLiteDriver{ConnectHook: func(c *sqlite3.SQLiteConn) error {
		if err := c.RegisterFunc("schema_name", func(id int) string { return s.schemaName(id) }, false); err != nil {
			return err
		}
		if err := c.RegisterFunc("schema_id", func(name string) any {
			for i := range s.db.schemas {
				if s.schemaName(i) == name {
					return i
				}
			}
			return nil
		}, false); err != nil {
			return err
		}
		if err := c.RegisterFunc("object_id", func(name string) any { return s.objectID(name) }, false); err != nil {
			return err
		}
		return c.RegisterFunc("quotename", func(name string) string { return "[" + strings.ReplaceAll(name, "]", "]]") + "]" }, true)
	}}
	c, err := drv.Open(":memory:")
	if err != nil {
		core.Broken("sys stand-in: %v", err)
	}
	s.conn = c.(*sqlite3.SQLiteConn)
	s.exec(`ATTACH ':memory:' AS sys`)
	s.exec(`CREATE TABLE sys.schemas (name, schema_id)`)
	s.exec(`CREATE TABLE sys.tables (name, object_id, schema_id)`)
	s.exec(`CREATE TABLE sys.columns (name, object_id, column_id, default_object_id)`)
	s.exec(`CREATE TABLE sys.default_constraints (name, object_id, schema_id, parent_object_id, parent_column_id)`)
	return s
}}

func (s *sysServer) schemaName(id int) string {
	if id < 0 || id >= len(s.db.schemas) {
		return ""
	}
	if n := s.db.schemas[id]; n != "" {
		return n
	}
	return "dbo"
}

func (s *sysServer) objectID(name string) any {
	toks, err := lexSQL("sqlserver", name)
	if err != nil {
		return nil
	}
	var parts []string
	for _, t := range toks {
		if v, ok := identifierValue("sqlserver", t); ok {
			parts = append(parts, v)
		}
	}
	if len(parts) == 1 {
		parts = []string{s.db.cur, parts[0]}
	}
	for i, t := range s.db.tables {
		if len(parts) == 2 && t.schema == parts[0] && t.name == parts[1] {
			return 1000 + i
		}
	}
	return nil
}

func (s *sysServer) exec(q string, args ...driver.Value) {
	if _, err := s.conn.Exec(q, args); err != nil {
		core.Broken("sys stand-in: %s: %v", q, err)
	}
}

// sysQuery runs "SELECT" + toks and returns the distinct values of the single column.
func sysQuery(db *mDB, toks []token) []string {
	s := sysPool.Get().(*sysServer)
	defer sysPool.Put(s)
	s.db = db
	for _, t := range []string{"schemas", "tables", "columns", "default_constraints"} {
		s.exec("DELETE FROM sys." + t)
	}
	for i := range db.schemas {
		s.exec("INSERT INTO sys.schemas VALUES (?, ?)", s.schemaName(i), int64(i))
	}
	for i, t := range db.tables {
		schema := int64(0)
		for k, x := range db.schemas {
			if x == t.schema {
				schema = int64(k)
			}
		}
		s.exec("INSERT INTO sys.tables VALUES (?, ?, ?)", t.name, int64(1000+i), schema)
		for j, c := range t.cols {
			var def driver.Value = int64(0)
			if c.def != "" {
				def = int64(100000 + 1000*i + j)
				s.exec("INSERT INTO sys.default_constraints VALUES (?, ?, ?, ?, ?)", fmt.Sprintf("DF__%d__%d", i, j), def, schema, int64(1000+i), int64(j+1))
			}
			s.exec("INSERT INTO sys.columns VALUES (?, ?, ?, ?)", c.name, int64(1000+i), int64(j+1), def)
		}
	}
	var b strings.Builder
	b.WriteString("SELECT")
	for _, t := range toks {
		switch t.kind {
		case tString:
			b.WriteString(" '" + strings.ReplaceAll(t.text, "'", "''") + "'")
		case tIdent:
			b.WriteString(` "` + strings.ReplaceAll(t.text, `"`, `""`) + `"`)
		default:
			b.WriteString(" " + t.text)
		}
	}
	rows, err := s.conn.Query(b.String(), nil)
	if err != nil {
		refuse("query refused: %v: %s", err, b.String())
	}
	defer rows.Close()
	var out []string
	vals := make([]driver.Value, len(rows.Columns()))
	for {
		err := rows.Next(vals)
		if err == io.EOF {
			return out
		}
		if err != nil {
			refuse("query refused: %v", err)
		}
		if v := str(vals[0]); !has(out, v) {
			out = append(out, v)
		}
	}
}
