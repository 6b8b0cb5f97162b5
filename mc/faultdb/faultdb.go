// Package faultdb puts a controllable layer between database/sql and a real
// SQLite database: every driver call can be observed, failed, turned into a
// crash, or delayed.
package faultdb

import (
	"context"
	"database/sql"
	"database/sql/driver"
	"errors"
	"fmt"
	"io"
	"reflect"
	"strings"
	"sync"
	"sync/atomic"

	sqlite3 "github.com/mattn/go-sqlite3"
)

// Op is one driver call.
type Op struct {
	Seq  int    // position in the run, from 0
	Conn int    // connection number
	Kind string // connect, begin, commit, rollback, exec, query, next, prepare
	SQL  string
	Args []driver.Value
	InTx bool
}

func (o Op) String() string {
	s := strings.Join(strings.Fields(o.SQL), " ")
	if len(s) > 70 {
		s = s[:70]
	}
	return fmt.Sprintf("#%d conn%d %s %s", o.Seq, o.Conn, o.Kind, s)
}

// Mode says how an operation goes wrong.
type Mode int

const (
	OK        Mode = iota
	ErrBefore      // the call fails without having any effect
	ErrAfter       // the call takes effect but reports an error
	Crash          // the server goes away before the call (open transactions are lost)
	CrashPost      // the server goes away after the call took effect
)

func (m Mode) String() string {
	return [...]string{"ok", "err-before", "err-after", "crash-before", "crash-after"}[m]
}

// ErrInjected is the error reported by failed calls.
var ErrInjected = errors.New("injected database failure")

// ErrCrashed is reported by every call after a crash.
var ErrCrashed = errors.New("injected crash: connection lost")

// Server is one SQLite database living as long as the Server.
type Server struct {
	dsn     string
	keeper  *sqlite3.SQLiteConn
	drv     *sqlite3.SQLiteDriver
	mu      sync.Mutex
	seq     int
	conns   int
	ops     []Op
	record  bool
	crashed bool
	live    map[*conn]bool
	dbs     []*sql.DB

	// Hook decides what happens to an operation. Nil means OK.
	Hook func(op Op) Mode
	// Err maps an injected failure to the error value; nil means ErrInjected.
	Err func(op Op) error
	// Gate, if not nil, is called before every operation outside any lock and may block.
	Gate func(op Op)
	// Translate, if not nil, rewrites statements before SQLite sees them. It may also
	// answer a statement itself by returning handled=true.
	Translate func(c int, query string, args []driver.NamedValue) (q string, a []driver.NamedValue, res *Answer)
}

// Answer is a canned reply to a statement.
type Answer struct {
	Cols []string
	Rows [][]driver.Value
	Err  error
}

var counter int64

// New creates an empty database. params are extra DSN parameters such as
// "_foreign_keys=true".
func New(params string) *Server {
	n := atomic.AddInt64(&counter, 1)
	dsn := fmt.Sprintf("file:/mc%d?vfs=memdb", n)
	if params != "" {
		dsn += "&" + params
	}
	s := &Server{dsn: dsn, drv: &sqlite3.SQLiteDriver{}, live: map[*conn]bool{}}
	c, err := s.drv.Open(dsn)
	if err != nil {
		panic(fmt.Sprintf("faultdb: %v", err))
	}
	s.keeper = c.(*sqlite3.SQLiteConn)
	return s
}

// Clone makes an independent copy of the database (main schema and rows).
func (s *Server) Clone(params string) *Server {
	d := New(params)
	b, err := d.keeper.Backup("main", s.keeper, "main")
	if err != nil {
		panic(fmt.Sprintf("faultdb: backup: %v", err))
	}
	for {
		done, err := b.Step(-1)
		if err != nil {
			panic(fmt.Sprintf("faultdb: backup step: %v", err))
		}
		if done {
			break
		}
	}
	if err := b.Finish(); err != nil {
		panic(fmt.Sprintf("faultdb: backup finish: %v", err))
	}
	return d
}

// DSN returns a data source name for direct access to the same database.
func (s *Server) DSN() string { return s.dsn }

// DB opens a database/sql handle that goes through the fault layer.
func (s *Server) DB() *sql.DB {
	db := sql.OpenDB(connector{s})
	s.mu.Lock()
	s.dbs = append(s.dbs, db)
	s.mu.Unlock()
	return db
}

// Close drops the database.
func (s *Server) Close() {
	s.mu.Lock()
	dbs := s.dbs
	s.dbs = nil
	s.crashed = false
	s.Gate = nil
	s.Hook = nil
	s.mu.Unlock()
	for _, db := range dbs {
		db.Close()
	}
	s.keeper.Close()
}

// Reset forgets faults, crash state and recorded operations: the server is healthy
// and freshly started.
func (s *Server) Reset() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.Hook, s.Gate, s.Err = nil, nil, nil
	s.seq, s.ops, s.crashed, s.record = 0, nil, false, false
}

// Record starts recording operations from zero.
func (s *Server) Record() {
	s.mu.Lock()
	defer s.mu.Unlock()
	s.seq, s.ops, s.record = 0, nil, true
}

// Ops returns the recorded operations.
func (s *Server) Ops() []Op {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]Op(nil), s.ops...)
}

// Exec runs SQL directly on the database, outside the fault layer.
func (s *Server) Exec(query string) error {
	_, err := s.keeper.Exec(query, nil)
	return err
}

// MustExec is Exec that panics.
func (s *Server) MustExec(query string) {
	if err := s.Exec(query); err != nil {
		panic(fmt.Sprintf("faultdb: %v: %s", err, query))
	}
}

// Query reads rows directly, outside the fault layer. Values are rendered with
// SQLite's own types.
func (s *Server) Query(query string, args ...any) ([][]any, error) {
	var dargs []driver.Value
	for _, a := range args {
		dargs = append(dargs, a)
	}
	rows, err := s.keeper.Query(query, dargs)
	if err != nil {
		return nil, err
	}
	defer rows.Close()
	var out [][]any
	n := len(rows.Columns())
	for {
		dest := make([]driver.Value, n)
		err := rows.Next(dest)
		if err == io.EOF {
			return out, nil
		}
		if err != nil {
			return nil, err
		}
		row := make([]any, n)
		for i, v := range dest {
			if b, ok := v.([]byte); ok && b != nil {
				v = append([]byte(nil), b...)
			}
			row[i] = v
		}
		out = append(out, row)
	}
}

// MustQuery is Query that panics.
func (s *Server) MustQuery(query string, args ...any) [][]any {
	rows, err := s.Query(query, args...)
	if err != nil {
		panic(fmt.Sprintf("faultdb: %v: %s", err, query))
	}
	return rows
}

// Strings returns the first column of a query as text.
func (s *Server) Strings(query string, args ...any) []string {
	var out []string
	for _, r := range s.MustQuery(query, args...) {
		switch v := r[0].(type) {
		case nil:
			out = append(out, "NULL")
		case []byte:
			out = append(out, string(v))
		default:
			out = append(out, fmt.Sprint(v))
		}
	}
	return out
}

func (s *Server) crashNow() {
	s.crashed = true
	for c := range s.live {
		if c.raw != nil {
			// Open statements would keep the connection and its transaction alive.
			c.raw.Exec("ROLLBACK", nil)
			c.raw.Close()
			c.raw = nil
		}
	}
}

// before is called at the start of every operation.
func (s *Server) before(c *conn, kind, query string, args []driver.NamedValue) (Op, Mode, error) {
	s.mu.Lock()
	gate := s.Gate
	s.mu.Unlock()
	op := Op{Kind: kind, SQL: query}
	if c != nil {
		op.Conn = c.id
		op.InTx = c.inTx
	}
	if len(args) > 0 {
		op.Args = make([]driver.Value, len(args))
		for i, a := range args {
			v := a.Value
			if b, ok := v.([]byte); ok && b != nil {
				v = append([]byte(nil), b...)
			}
			op.Args[i] = v
		}
	}
	if gate != nil {
		gate(op)
	}
	s.mu.Lock()
	defer s.mu.Unlock()
	if s.crashed {
		return op, ErrBefore, ErrCrashed
	}
	op.Seq = s.seq
	s.seq++
	if s.record {
		s.ops = append(s.ops, op)
	}
	mode := OK
	if s.Hook != nil {
		mode = s.Hook(op)
	}
	switch mode {
	case ErrBefore:
		return op, mode, s.err(op)
	case Crash:
		s.crashNow()
		return op, ErrBefore, ErrCrashed
	}
	return op, mode, nil
}

func (s *Server) err(op Op) error {
	if s.Err != nil {
		return s.Err(op)
	}
	return ErrInjected
}

// after is called when an operation has taken effect.
func (s *Server) after(op Op, mode Mode, err error) error {
	switch mode {
	case ErrAfter:
		return s.err(op)
	case CrashPost:
		s.mu.Lock()
		defer s.mu.Unlock()
		s.crashNow()
		return ErrCrashed
	}
	return err
}

type connector struct{ s *Server }

func (k connector) Connect(ctx context.Context) (driver.Conn, error) {
	s := k.s
	op, mode, err := s.before(nil, "connect", "", nil)
	if err != nil {
		return nil, err
	}
	raw, err := s.drv.Open(s.dsn)
	if err != nil {
		return nil, err
	}
	s.mu.Lock()
	s.conns++
	c := &conn{s: s, raw: raw.(*sqlite3.SQLiteConn), id: s.conns}
	s.live[c] = true
	s.mu.Unlock()
	if err := s.after(op, mode, nil); err != nil {
		c.Close()
		return nil, err
	}
	return c, nil
}

func (k connector) Driver() driver.Driver { return k.s.drv }

type conn struct {
	s    *Server
	raw  *sqlite3.SQLiteConn
	id   int
	inTx bool
}

func (c *conn) Prepare(query string) (driver.Stmt, error) {
	return c.PrepareContext(context.Background(), query)
}

func (c *conn) PrepareContext(ctx context.Context, query string) (driver.Stmt, error) {
	op, mode, err := c.s.before(c, "prepare", query, nil)
	if err != nil {
		return nil, err
	}
	if c.s.Translate != nil {
		st := &stmt{c: c, query: query, n: -1}
		return st, c.s.after(op, mode, nil)
	}
	raw, err := c.raw.PrepareContext(ctx, query)
	if err = c.s.after(op, mode, err); err != nil {
		if raw != nil {
			raw.Close()
		}
		return nil, err
	}
	return &stmt{c: c, query: query, raw: raw.(*sqlite3.SQLiteStmt), n: raw.NumInput()}, nil
}

func (c *conn) Close() error {
	c.s.mu.Lock()
	defer c.s.mu.Unlock()
	delete(c.s.live, c)
	if c.raw != nil {
		err := c.raw.Close()
		c.raw = nil
		return err
	}
	return nil
}

func (c *conn) Begin() (driver.Tx, error) {
	return c.BeginTx(context.Background(), driver.TxOptions{})
}

func (c *conn) BeginTx(ctx context.Context, opts driver.TxOptions) (driver.Tx, error) {
	op, mode, err := c.s.before(c, "begin", "", nil)
	if err != nil {
		return nil, err
	}
	t, err := c.raw.BeginTx(ctx, opts)
	if err2 := c.s.after(op, mode, err); err2 != nil {
		if err == nil && t != nil && c.raw != nil {
			t.Rollback()
		}
		return nil, err2
	}
	c.inTx = true
	return &tx{c: c, raw: t}, nil
}

func (c *conn) Ping(ctx context.Context) error {
	_, _, err := c.s.before(c, "ping", "", nil)
	return err
}

func (c *conn) IsValid() bool { return c.raw != nil }

func (c *conn) ExecContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Result, error) {
	op, mode, err := c.s.before(c, "exec", query, args)
	if err != nil {
		return nil, err
	}
	q, a := query, args
	if c.s.Translate != nil {
		var ans *Answer
		q, a, ans = c.s.Translate(c.id, query, args)
		if ans != nil {
			if err := c.s.after(op, mode, ans.Err); err != nil {
				return nil, err
			}
			return driver.RowsAffected(0), nil
		}
	}
	res, err := c.raw.ExecContext(ctx, q, a)
	if err = c.s.after(op, mode, err); err != nil {
		return nil, err
	}
	return res, nil
}

func (c *conn) QueryContext(ctx context.Context, query string, args []driver.NamedValue) (driver.Rows, error) {
	op, mode, err := c.s.before(c, "query", query, args)
	if err != nil {
		return nil, err
	}
	q, a := query, args
	if c.s.Translate != nil {
		var ans *Answer
		q, a, ans = c.s.Translate(c.id, query, args)
		if ans != nil {
			if err := c.s.after(op, mode, ans.Err); err != nil {
				return nil, err
			}
			return &rows{c: c, query: query, canned: ans}, nil
		}
	}
	r, err := c.raw.QueryContext(ctx, q, a)
	if err = c.s.after(op, mode, err); err != nil {
		if r != nil {
			r.Close()
		}
		return nil, err
	}
	return &rows{c: c, query: query, raw: r.(*sqlite3.SQLiteRows)}, nil
}

type tx struct {
	c   *conn
	raw driver.Tx
}

func (t *tx) Commit() error {
	op, mode, err := t.c.s.before(t.c, "commit", "", nil)
	t.c.inTx = false
	if err != nil {
		// The transaction is not committed: SQLite would keep it open, servers abort
		// it. Abort, as every caller must treat it as failed.
		if t.c.raw != nil {
			t.raw.Rollback()
		}
		return err
	}
	err = t.raw.Commit()
	return t.c.s.after(op, mode, err)
}

func (t *tx) Rollback() error {
	op, mode, err := t.c.s.before(t.c, "rollback", "", nil)
	t.c.inTx = false
	if t.c.raw == nil {
		return ErrCrashed
	}
	// A rollback that cannot be delivered still ends in the transaction being lost.
	rerr := t.raw.Rollback()
	if err != nil {
		return err
	}
	return t.c.s.after(op, mode, rerr)
}

type stmt struct {
	c     *conn
	query string
	raw   *sqlite3.SQLiteStmt
	n     int
}

func (s *stmt) Close() error {
	if s.raw != nil && s.c.raw != nil {
		return s.raw.Close()
	}
	return nil
}
func (s *stmt) NumInput() int { return s.n }
func (s *stmt) Exec(args []driver.Value) (driver.Result, error) {
	return nil, errors.New("faultdb: unsupported")
}
func (s *stmt) Query(args []driver.Value) (driver.Rows, error) {
	return nil, errors.New("faultdb: unsupported")
}
func (s *stmt) ExecContext(ctx context.Context, args []driver.NamedValue) (driver.Result, error) {
	if s.raw == nil {
		return s.c.ExecContext(ctx, s.query, args)
	}
	op, mode, err := s.c.s.before(s.c, "exec", s.query, args)
	if err != nil {
		return nil, err
	}
	res, err := s.raw.ExecContext(ctx, args)
	if err = s.c.s.after(op, mode, err); err != nil {
		return nil, err
	}
	return res, nil
}
func (s *stmt) QueryContext(ctx context.Context, args []driver.NamedValue) (driver.Rows, error) {
	if s.raw == nil {
		return s.c.QueryContext(ctx, s.query, args)
	}
	op, mode, err := s.c.s.before(s.c, "query", s.query, args)
	if err != nil {
		return nil, err
	}
	r, err := s.raw.QueryContext(ctx, args)
	if err = s.c.s.after(op, mode, err); err != nil {
		return nil, err
	}
	return &rows{c: s.c, query: s.query, raw: r.(*sqlite3.SQLiteRows)}, nil
}

type rows struct {
	c      *conn
	query  string
	raw    *sqlite3.SQLiteRows
	canned *Answer
	i      int
}

func (r *rows) Columns() []string {
	if r.canned != nil {
		return r.canned.Cols
	}
	return r.raw.Columns()
}

func (r *rows) Close() error {
	if r.raw != nil && r.c.raw != nil {
		return r.raw.Close()
	}
	return nil
}

func (r *rows) Next(dest []driver.Value) error {
	op, mode, err := r.c.s.before(r.c, "next", r.query, nil)
	if err != nil {
		return err
	}
	if r.canned != nil {
		if r.i >= len(r.canned.Rows) {
			return r.c.s.after(op, mode, io.EOF)
		}
		copy(dest, r.canned.Rows[r.i])
		r.i++
		return r.c.s.after(op, mode, nil)
	}
	if r.c.raw == nil {
		return ErrCrashed
	}
	err = r.raw.Next(dest)
	return r.c.s.after(op, mode, err)
}

func (r *rows) ColumnTypeDatabaseTypeName(i int) string {
	if r.raw == nil {
		return ""
	}
	return r.raw.ColumnTypeDatabaseTypeName(i)
}

func (r *rows) ColumnTypeScanType(i int) reflect.Type {
	if r.raw == nil {
		return reflect.TypeOf(new(any)).Elem()
	}
	return r.raw.ColumnTypeScanType(i)
}

func (r *rows) ColumnTypeNullable(i int) (bool, bool) {
	if r.raw == nil {
		return true, false
	}
	return r.raw.ColumnTypeNullable(i)
}
