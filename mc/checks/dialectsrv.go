package checks

import (
	"database/sql/driver"
	"fmt"
	"regexp"
	"strings"
	"sync"

	"github.com/bokwoon95/sqddl/ddl"
	mssql "github.com/denisenkom/go-mssqldb"
	"github.com/go-sql-driver/mysql"
	"github.com/jackc/pgconn"
	"github.com/lib/pq"

	"verifmc/faultdb"
)

// dialectServer is a stand-in for a Postgres, MySQL or SQL Server as far as migration
// bookkeeping is concerned: session variables live here, the history table in SQLite.
type dialectServer struct {
	*faultdb.Server
	dialect string
	initial string // lock timeout of new sessions
	mu      sync.Mutex
	session map[int]string
	sets    []string
}

var (
	reSetPG    = regexp.MustCompile(`(?i)^\s*SET\s+(?:SESSION\s+)?lock_timeout\s*(?:=|TO)\s*(.+?)\s*;?\s*$`)
	reSetMySQL = regexp.MustCompile(`(?i)^\s*SET\s+(?:SESSION\s+|@@(?:SESSION\.)?)?lock_wait_timeout\s*:?=\s*(.+?)\s*;?\s*$`)
	reSetMSSQL = regexp.MustCompile(`(?i)^\s*SET\s+LOCK_TIMEOUT\s+(.+?)\s*;?\s*$`)
	reGet      = regexp.MustCompile(`(?i)^\s*(SHOW\s+lock_timeout|SELECT\s+@@(SESSION\.)?lock_wait_timeout|SELECT\s+@@LOCK_TIMEOUT|SELECT\s+current_setting\('lock_timeout'\))\s*;?\s*$`)
	reNumber   = regexp.MustCompile(`^-?\d+$`)
	rePGValue  = regexp.MustCompile(`^'(-?\d+ ?(?:us|ms|s|min|h|d)?)'$|^(-?\d+)$`)
	reExists   = regexp.MustCompile(`(?is)\bexists\b.*(pg_class|pg_tables|information_schema|sys\.tables|to_regclass)`)
	reTmpRows  = regexp.MustCompile(`(?is)\(VALUES (.*)\) AS (\w+) \(([^)]*)\)`)
)

func newDialectServer(dialect, initial string) *dialectServer {
	d := &dialectServer{Server: faultdb.New(""), dialect: dialect, initial: initial, session: map[int]string{}}
	if dialect != ddl.DialectSQLite {
		d.Server.Translate = d.translate
	}
	return d
}

func (d *dialectServer) value(conn int) string {
	d.mu.Lock()
	defer d.mu.Unlock()
	if v, ok := d.session[conn]; ok {
		return v
	}
	return d.initial
}

func syntaxError(dialect, msg string) error {
	switch dialect {
	case ddl.DialectPostgres:
		return &pq.Error{Code: "42601", Message: msg}
	case ddl.DialectMySQL:
		return &mysql.MySQLError{Number: 1064, Message: msg}
	}
	return mssql.Error{Number: 102, Message: msg}
}

func (d *dialectServer) translate(conn int, query string, args []driver.NamedValue) (string, []driver.NamedValue, *faultdb.Answer) {
	fail := func(format string, a ...any) (string, []driver.NamedValue, *faultdb.Answer) {
		return "", nil, &faultdb.Answer{Err: syntaxError(d.dialect, fmt.Sprintf(format, a...))}
	}
	set := func(v string) (string, []driver.NamedValue, *faultdb.Answer) {
		d.mu.Lock()
		defer d.mu.Unlock()
		d.session[conn] = v
		d.sets = append(d.sets, fmt.Sprintf("conn%d=%s", conn, v))
		return "", nil, &faultdb.Answer{}
	}
	if reGet.MatchString(query) {
		return "", nil, &faultdb.Answer{Cols: []string{"v"}, Rows: [][]driver.Value{{d.value(conn)}}}
	}
	if reExists.MatchString(query) {
		return "SELECT EXISTS (SELECT 1 FROM sqlite_schema WHERE type = 'table' AND name = ?)", args, nil
	}
	switch d.dialect {
	case ddl.DialectPostgres:
		if m := reSetPG.FindStringSubmatch(query); m != nil {
			v := rePGValue.FindStringSubmatch(m[1])
			if v == nil {
				return fail("trailing junk after numeric literal at or near %q", m[1])
			}
			return set(v[1] + v[2])
		}
	case ddl.DialectMySQL:
		if m := reSetMySQL.FindStringSubmatch(query); m != nil {
			if !reNumber.MatchString(m[1]) {
				return fail("Incorrect argument type to variable 'lock_wait_timeout'")
			}
			return set(m[1])
		}
		if i := strings.Index(query, " ON DUPLICATE KEY UPDATE "); i >= 0 {
			query = query[:i] + " ON CONFLICT (filename) DO UPDATE SET " + regexp.MustCompile(`VALUES\((\w+)\)`).ReplaceAllString(query[i+len(" ON DUPLICATE KEY UPDATE "):], "EXCLUDED.$1")
		}
	case ddl.DialectSQLServer:
		if m := reSetMSSQL.FindStringSubmatch(query); m != nil {
			if !reNumber.MatchString(m[1]) {
				return fail("Incorrect syntax near '%s'", m[1])
			}
			return set(m[1])
		}
		if strings.HasPrefix(query, "UPDATE ") {
			query = strings.Replace(query, " WITH (UPDLOCK, SERIALIZABLE)", "", 1)
			query = regexp.MustCompile(`(?s) FROM \S+ JOIN \(VALUES `).ReplaceAllString(query, " FROM (VALUES ")
			query = regexp.MustCompile(`(?s)^(.*\) AS \w+ \([^)]*\)) ON (.*)$`).ReplaceAllString(query, "$1 WHERE $2")
		}
		query = reTmpRows.ReplaceAllString(query, "(WITH v_ ($3) AS (VALUES $1) SELECT * FROM v_) AS $2")
	}
	if strings.Contains(query, "IN ()") {
		return fail("syntax error at or near \")\"")
	}
	return query, args, nil
}

// lockTimeout returns the error with which a server reports a lock timeout.
func lockTimeout(dialect string) error {
	switch dialect {
	case ddl.DialectPostgres:
		if usePgx {
			return &pgconn.PgError{Code: "55P03", Message: "canceling statement due to lock timeout"}
		}
		return &pq.Error{Code: "55P03", Message: "canceling statement due to lock timeout", Position: "3", Detail: "100%d", Hint: "%s"}
	case ddl.DialectMySQL:
		return &mysql.MySQLError{Number: 1205, Message: "Lock wait timeout exceeded; try restarting transaction"}
	case ddl.DialectSQLServer:
		return mssql.Error{Number: 1222, Message: "Lock request time out period exceeded.", LineNo: 1}
	}
	return fmt.Errorf("database is locked")
}

// otherError returns some other server error.
func otherError(dialect string) error {
	switch dialect {
	case ddl.DialectPostgres:
		if usePgx {
			return &pgconn.PgError{Code: "40P01", Message: "deadlock detected"}
		}
		return &pq.Error{Code: "40P01", Message: "deadlock detected"}
	case ddl.DialectMySQL:
		return &mysql.MySQLError{Number: 1213, Message: "Deadlock found when trying to get lock; try restarting transaction"}
	case ddl.DialectSQLServer:
		return mssql.Error{Number: 1205, Message: "Transaction was deadlocked", LineNo: 1}
	}
	return fmt.Errorf("no such table: x")
}
