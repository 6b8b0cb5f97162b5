// Package checks holds one file per property.
package checks

import (
	"bytes"
	"crypto/sha256"
	"encoding/hex"
	"fmt"
	"io/fs"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"

	"github.com/bokwoon95/sqddl/drivers/ddlmysql"
	"github.com/bokwoon95/sqddl/drivers/ddlpostgres"
	"github.com/bokwoon95/sqddl/drivers/ddlsqlite3"
	"github.com/bokwoon95/sqddl/drivers/ddlsqlserver"

	"verifmc/core"
	"verifmc/faultdb"
)

func init() {
	// The same drivers the command line tool registers.
	ddlsqlite3.Register()
	ddlpostgres.Register()
	ddlmysql.Register()
	ddlsqlserver.Register()
}

// checksum is the documented checksum of a repeatable migration: SHA256 of the contents
// with CRLF counted as LF.
func checksum(contents string) string {
	h := sha256.Sum256([]byte(strings.ReplaceAll(contents, "\r\n", "\n")))
	return hex.EncodeToString(h[:])
}

// syncBuf is a bytes.Buffer safe for concurrent writes.
type syncBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (s *syncBuf) Write(p []byte) (int, error) {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.Write(p)
}

func (s *syncBuf) String() string {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.b.String()
}

// sqliteDump renders the whole database (schema and rows of ordinary tables), skipping
// the tables named in skip. It is the reference for "unchanged".
func sqliteDump(s *faultdb.Server, skip ...string) string {
	sk := map[string]bool{}
	for _, n := range skip {
		sk[n] = true
	}
	var b strings.Builder
	rows := s.MustQuery(`SELECT type, name, tbl_name, coalesce(sql,'') FROM sqlite_schema ORDER BY type, name`)
	var tables []string
	for _, r := range rows {
		typ, name, tbl, sql := str(r[0]), str(r[1]), str(r[2]), str(r[3])
		if sk[tbl] {
			continue
		}
		fmt.Fprintf(&b, "%s %s %s %s\n", typ, name, tbl, sql)
		if typ == "table" && !strings.HasPrefix(sql, "CREATE VIRTUAL") {
			tables = append(tables, name)
		}
	}
	for _, tbl := range tables {
		b.WriteString(tableRows(s, tbl))
	}
	return b.String()
}

func qid(name string) string { return `"` + strings.ReplaceAll(name, `"`, `""`) + `"` }

func qlit(s string) string { return `'` + strings.ReplaceAll(s, `'`, `''`) + `'` }

// tableRows renders the rows of a table as quoted SQL literals with storage classes,
// independent of row order.
func tableRows(s *faultdb.Server, tbl string, cols ...string) string {
	return strings.Join(tableRowList(s, tbl, cols...), "")
}

func tableRowList(s *faultdb.Server, tbl string, cols ...string) []string {
	if len(cols) == 0 {
		for _, r := range s.MustQuery(`SELECT name FROM pragma_table_xinfo(?) WHERE hidden IN (0,2,3) ORDER BY cid`, tbl) {
			cols = append(cols, str(r[0]))
		}
	}
	var e []string
	for _, c := range cols {
		e = append(e, "typeof("+qid(c)+")||':'||quote("+qid(c)+")")
	}
	if len(e) == 0 {
		return nil
	}
	var out []string
	for _, r := range s.MustQuery("SELECT " + strings.Join(e, ",") + " FROM " + qid(tbl)) {
		var p []string
		for _, v := range r {
			p = append(p, str(v))
		}
		out = append(out, tbl+": "+strings.Join(p, " | ")+"\n")
	}
	sort.Strings(out)
	return out
}

func str(v any) string {
	switch v := v.(type) {
	case nil:
		return "NULL"
	case []byte:
		return string(v)
	case string:
		return v
	}
	return fmt.Sprint(v)
}

func errStr(err error) string {
	if err == nil {
		return "nil"
	}
	s := err.Error()
	if len(s) > 200 {
		s = s[:200]
	}
	return s
}

func permutations(xs []string) [][]string {
	if len(xs) == 0 {
		return [][]string{{}}
	}
	var out [][]string
	for i := range xs {
		rest := append(append([]string{}, xs[:i]...), xs[i+1:]...)
		for _, p := range permutations(rest) {
			out = append(out, append([]string{xs[i]}, p...))
		}
	}
	return out
}

func diff(a, b []string) string {
	am, bm := map[string]int{}, map[string]int{}
	for _, x := range a {
		am[x]++
	}
	for _, x := range b {
		bm[x]++
	}
	var out []string
	for _, x := range a {
		if am[x] > bm[x] {
			out = append(out, "- "+x)
			am[x]--
		}
	}
	for _, x := range b {
		if bm[x] > am[x] {
			out = append(out, "+ "+x)
			bm[x]--
		}
	}
	return strings.Join(out, "\n")
}

// scratchDir makes a directory for one case; the case removes it.
func scratchDir() string {
	dir, err := os.MkdirTemp("", "verifmc")
	if err != nil {
		core.Broken("%v", err)
	}
	return dir
}

// dirText is the contents of all files below dir.
func dirText(dir string) string {
	var b strings.Builder
	err := filepath.WalkDir(dir, func(path string, d fs.DirEntry, err error) error {
		if err != nil || d.IsDir() {
			return err
		}
		data, err := os.ReadFile(path)
		fmt.Fprintf(&b, "-- %s\n%s\n", strings.TrimPrefix(path, dir), data)
		return err
	})
	if err != nil {
		core.Broken("%v", err)
	}
	return b.String()
}
