package checks

import (
	"bytes"
	"context"
	"database/sql/driver"
	"encoding/hex"
	"fmt"
	"io"
	"math"
	"math/big"
	"os"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"time"

	"github.com/bokwoon95/sqddl/ddl"

	"verifmc/core"
	"verifmc/faultdb"
)

func init() {
	core.Register(&core.Check{Prop: "C21", Level: "model_checking", Run: runC21,
		Assumptions: []string{
			"the servers are models: a value leaves the database in the Go type the driver documents for its column type (pgx and lib/pq, go-sql-driver/mysql with parseTime, go-mssqldb) and enters it by the server's rules for converting a parameter to the column type; the system catalogs are those of C16",
			"texts do not contain carriage return followed by newline (known finding of C11) and do not equal the null marker",
			"years are 1 to 9999; arrays dumped as JSON have one dimension, no NULL elements and numbers a float64 holds",
			"rowversion, spatial and hierarchyid columns are left out",
		}})
}

// C21: values of Postgres, MySQL and SQL Server columns survive dump and load.
// A stored value is written as the server prints it.

// valType is a column type with values, and how they travel.
type valType struct {
	name   string
	typ    xType
	family string
	size   int // bits or bytes, digits of a second
	values []string
}

const (
	zoneTokyo = 9 * 3600
	zoneDelhi = 5*3600 + 1800
)

var (
	reSelect  = regexp.MustCompile("(?is)^\\s*SELECT\\s+(.*?)\\s+FROM\\s+(?:[\\w\"`\\[\\]]+\\.)?[\"`\\[]?vals\\b")
	reInsert  = regexp.MustCompile("(?is)^\\s*INSERT\\s+INTO\\s+(?:[\\w\"`\\[\\]]+\\.)?[\"`\\[]?vals[\"`\\]]?\\s*\\(([^)]*)\\)")
	reZoneSet = regexp.MustCompile(`(?is)^\s*SET\s+(?:SESSION\s+|LOCAL\s+)?TIME\s?ZONE\s*(?:=|TO)?\s*'([^']*)'\s*;?\s*$`)
	reZoneGet = regexp.MustCompile(`(?is)^\s*(?:SHOW\s+TIME\s?ZONE|SELECT\s+current_setting\('timezone'\))\s*;?\s*$`)
	reFKGet   = regexp.MustCompile(`(?is)^\s*SELECT\s+@@(?:SESSION\.)?foreign_key_checks\s*;?\s*$`)
	reUUID    = regexp.MustCompile(`(?i)^\{?([0-9a-f]{8})-?([0-9a-f]{4})-?([0-9a-f]{4})-?([0-9a-f]{4})-?([0-9a-f]{12})\}?$`)
	reStamp   = regexp.MustCompile(`^(\d{4,6})-(\d\d)-(\d\d)(?:[ T](\d\d):(\d\d)(?::(\d\d)(?:\.(\d{1,9}))?)?)? ?(Z|[+-]\d\d(?::?\d\d)?)?$`)
	reTime    = regexp.MustCompile(`^(?:(\d{4})-\d\d-\d\d[ T])?(-?\d{2,3}):(\d\d)(?::(\d\d)(?:\.(\d{1,9}))?)?(Z|[+-]\d\d(?::?\d\d)?)?$`)
)

// valServer is a database with the table vals.
type valServer struct {
	*faultdb.Server
	mu      sync.Mutex
	driver  string
	cat     *sysCat
	cols    []string
	types   []valType
	rows    [][]string // stored, "NULL" marked by \x00
	zone    string
	unknown string
}

const vNull = "\x00"

func valDialect(drv string) string {
	return map[string]string{"pgx": "postgres", "pq": "postgres", "mysql": "mysql", "mssql": "sqlserver"}[drv]
}

func newValServer(drv string, types []valType, rows [][]string) *valServer {
	dialect := valDialect(drv)
	w := xEmpty(dialect, xVersions[dialect][0])
	tbl := xTable{name: "vals", cols: []xCol{xC("k", xInt(dialect))}}
	s := &valServer{Server: faultdb.New(""), driver: drv, cols: []string{"k"}, types: append([]valType{{name: "int", typ: xInt(dialect), family: "int", size: 32}}, types...), rows: rows, zone: "Asia/Tokyo"}
	for i, t := range types {
		name := "v" + strconv.Itoa(i)
		tbl.cols = append(tbl.cols, xC(name, t.typ))
		s.cols = append(s.cols, name)
	}
	w.schemas[0].tables = []xTable{tbl}
	s.cat = w.load()
	s.Server.Translate = s.answer
	return s
}

func (s *valServer) close() {
	s.Server.Close()
	s.cat.close()
}

func bareNames(list string) (out []string) {
	for _, n := range strings.Split(list, ",") {
		n = strings.Trim(strings.TrimSpace(n), "\"`[]")
		if i := strings.LastIndexAny(n, ".\"`["); i >= 0 {
			n = strings.Trim(n[i+1:], "\"`[]")
		}
		out = append(out, n)
	}
	return out
}

func (s *valServer) column(name string) int {
	for i, c := range s.cols {
		if strings.EqualFold(c, name) {
			return i
		}
	}
	return -1
}

func (s *valServer) answer(conn int, query string, args []driver.NamedValue) (string, []driver.NamedValue, *faultdb.Answer) {
	s.mu.Lock()
	defer s.mu.Unlock()
	reply := func(a faultdb.Answer) (string, []driver.NamedValue, *faultdb.Answer) { return "", nil, &a }
	strange := func() (string, []driver.NamedValue, *faultdb.Answer) {
		s.unknown = query
		return reply(faultdb.Answer{Err: fmt.Errorf("not understood: %s", query)})
	}
	if m := reSelect.FindStringSubmatch(query); m != nil {
		names := bareNames(m[1])
		a := faultdb.Answer{Cols: names}
		for _, row := range s.rows {
			var out []driver.Value
			for _, n := range names {
				i := s.column(n)
				if i < 0 {
					return strange()
				}
				if row[i] == vNull {
					out = append(out, nil)
				} else {
					out = append(out, s.types[i].out(s.driver, row[i]))
				}
			}
			a.Rows = append(a.Rows, out)
		}
		return reply(a)
	}
	if m := reInsert.FindStringSubmatch(query); m != nil {
		names := bareNames(m[1])
		if len(args) == 0 || len(args)%len(names) != 0 {
			return strange()
		}
		for len(args) > 0 {
			row := make([]string, len(s.cols))
			for i := range row {
				row[i] = vNull
			}
			for j, n := range names {
				i := s.column(n)
				if i < 0 {
					return strange()
				}
				if args[j].Value == nil {
					continue
				}
				v, err := s.types[i].in(s.driver, s.zone, args[j].Value)
				if err != nil {
					return reply(faultdb.Answer{Err: fmt.Errorf("column %s of type %s: %v", n, s.types[i].name, err)})
				}
				row[i] = v
			}
			s.rows = append(s.rows, row)
			args = args[len(names):]
		}
		return reply(faultdb.Answer{})
	}
	if m := reZoneSet.FindStringSubmatch(query); m != nil {
		s.zone = m[1]
		return reply(faultdb.Answer{})
	}
	switch {
	case reZoneGet.MatchString(query):
		return reply(faultdb.Answer{Cols: []string{"TimeZone"}, Rows: [][]driver.Value{{s.zone}}})
	case reFKGet.MatchString(query):
		return reply(faultdb.Answer{Cols: []string{"v"}, Rows: [][]driver.Value{{int64(1)}}})
	case regexp.MustCompile(`(?i)^\s*SET\s`).MatchString(query):
		return reply(faultdb.Answer{})
	}
	var vals []any
	for _, a := range args {
		vals = append(vals, a.Value)
	}
	rows, err := s.cat.QueryContext(context.Background(), query, vals...)
	if err != nil {
		if untranslatable(err) {
			return strange()
		}
		return reply(faultdb.Answer{Err: err})
	}
	defer rows.Close()
	a := faultdb.Answer{}
	a.Cols, _ = rows.Columns()
	for rows.Next() {
		vals := make([]any, len(a.Cols))
		ptrs := make([]any, len(vals))
		for i := range vals {
			ptrs[i] = &vals[i]
		}
		if err := rows.Scan(ptrs...); err != nil {
			return reply(faultdb.Answer{Err: err})
		}
		out := make([]driver.Value, len(vals))
		for i := range vals {
			out[i] = vals[i]
		}
		a.Rows = append(a.Rows, out)
	}
	if err := rows.Err(); err != nil {
		if untranslatable(err) {
			return strange()
		}
		a.Err = err
	}
	return reply(a)
}

func mustTime(s string) time.Time {
	for _, l := range []string{"2006-01-02 15:04:05.999999999-07:00", "2006-01-02 15:04:05.999999999", "2006-01-02"} {
		if t, err := time.Parse(l, s); err == nil {
			return t
		}
	}
	core.Broken("C21: time %q", s)
	return time.Time{}
}

// swapUUID is the byte order of SQL Server.
func swapUUID(b []byte) []byte {
	return append([]byte{b[3], b[2], b[1], b[0], b[5], b[4], b[7], b[6]}, b[8:]...)
}

// out is what the driver returns for a stored value.
func (v valType) out(drv, s string) driver.Value {
	text := func() driver.Value {
		if drv == "pgx" || drv == "mssql" {
			return s
		}
		return []byte(s)
	}
	switch v.family {
	case "int":
		if drv == "mysql" {
			return []byte(s)
		}
		n, err := strconv.ParseInt(s, 10, 64)
		if err != nil {
			core.Broken("C21: %v", err)
		}
		return n
	case "bool":
		return s == "true"
	case "float":
		if drv == "mysql" {
			return []byte(s)
		}
		f, err := strconv.ParseFloat(s, v.size)
		if err != nil {
			core.Broken("C21: %v", err)
		}
		return f
	case "numeric":
		if drv == "pgx" {
			return s
		}
		return []byte(s)
	case "text":
		if drv == "pq" && has([]string{"text", "varchar(10)", "char(3)"}, v.name) {
			return s
		}
		return text()
	case "binary", "mybit":
		b, err := hex.DecodeString(s)
		if err != nil {
			core.Broken("C21: %v", err)
		}
		return b
	case "uuid":
		if drv == "mssql" {
			b, _ := hex.DecodeString(strings.ReplaceAll(s, "-", ""))
			return swapUUID(b)
		}
		return text()
	case "date", "timestamp", "timestamptz", "offset":
		switch {
		case strings.HasSuffix(s, "infinity"):
			return text()
		case strings.HasPrefix(s, "0000-00-00"):
			return time.Time{}
		case v.family == "timestamptz":
			return mustTime(s).In(time.FixedZone("", zoneDelhi))
		}
		return mustTime(s)
	case "time":
		if drv == "pgx" || drv == "mysql" {
			return text()
		}
		year := "0000"
		if drv == "mssql" {
			year = "0001"
		}
		return mustTime(year + "-01-01 " + s)
	}
	return text() // bits and arrays
}

func zoneOffset(s, session string) (int, error) {
	switch s {
	case "":
		switch session {
		case "UTC":
			return 0, nil
		case "Asia/Tokyo":
			return zoneTokyo, nil
		}
		return 0, fmt.Errorf("unknown time zone %q", session)
	case "Z":
		return 0, nil
	}
	var h, m int
	fmt.Sscanf(strings.ReplaceAll(s[1:], ":", ""), "%2d%2d", &h, &m)
	n := h*3600 + m*60
	if s[0] == '-' {
		n = -n
	}
	return n, nil
}

// in is the stored value a parameter becomes, or the error of the server.
func (v valType) in(drv, session string, arg driver.Value) (string, error) {
	bad := func() (string, error) {
		return "", fmt.Errorf("server cannot convert %T %q", arg, fmt.Sprint(arg))
	}
	var s string
	raw, isBytes := arg.([]byte)
	switch a := arg.(type) {
	case string:
		s = a
	case []byte:
		s = string(a)
	case int64:
		s = strconv.FormatInt(a, 10)
	case float64:
		s = strconv.FormatFloat(a, 'g', -1, 64)
	case bool:
		s = strconv.FormatBool(a)
		if v.family == "int" || v.family == "numeric" {
			s = map[bool]string{true: "1", false: "0"}[a]
		}
	case time.Time:
		s = a.Format("2006-01-02 15:04:05.999999999-07:00")
		if v.family == "time" {
			s = a.Format("15:04:05.999999999")
		}
	default:
		return bad()
	}
	if isBytes && v.family != "binary" && v.family != "mybit" && v.family != "uuid" && drv != "mysql" {
		// sent as bytea or varbinary
		return bad()
	}
	switch v.family {
	case "int":
		n, ok := new(big.Int).SetString(strings.TrimSpace(s), 10)
		if !ok {
			return bad()
		}
		lo, hi := new(big.Int), new(big.Int).Lsh(big.NewInt(1), uint(v.size))
		if !strings.Contains(v.name, "unsigned") && !(drv == "mssql" && v.size == 8) {
			hi.Rsh(hi, 1)
			lo.Neg(hi)
		}
		if n.Cmp(lo) < 0 || n.Cmp(hi) >= 0 {
			return bad()
		}
		return n.String(), nil
	case "bool":
		switch strings.ToLower(strings.TrimSpace(s)) {
		case "1", "true":
			return "true", nil
		case "0", "false":
			return "false", nil
		case "t", "yes", "y", "on":
			if drv != "mssql" {
				return "true", nil
			}
		case "f", "no", "n", "off":
			if drv != "mssql" {
				return "false", nil
			}
		}
		return bad()
	case "numeric":
		if drv == "mssql" && strings.ContainsAny(s, "eE") {
			return bad()
		}
		return canonNumber(s)
	case "float":
		switch l := strings.ToLower(s); {
		case has([]string{"nan", "inf", "+inf", "-inf", "infinity", "+infinity", "-infinity"}, l):
			if valDialect(drv) != "postgres" {
				return bad()
			}
		case strings.ContainsAny(l, "xpn_"):
			return bad()
		}
		f, err := strconv.ParseFloat(s, v.size)
		if err != nil {
			return bad()
		}
		return strconv.FormatFloat(f, 'g', -1, v.size), nil
	case "text":
		if strings.HasPrefix(v.name, "enum") && !strings.Contains(v.name, "'"+strings.ReplaceAll(s, "'", "''")+"'") {
			return bad()
		}
		return s, nil
	case "binary":
		if !isBytes {
			switch drv {
			case "mssql":
				return bad()
			case "pgx", "pq":
				if !strings.HasPrefix(s, `\x`) {
					if strings.Contains(s, `\`) {
						return bad()
					}
					break
				}
				b, err := hex.DecodeString(s[2:])
				if err != nil {
					return bad()
				}
				raw = b
				return hex.EncodeToString(raw), nil
			}
			raw = []byte(s)
		}
		return hex.EncodeToString(raw), nil
	case "mybit":
		if n, ok := arg.(int64); ok {
			raw = big.NewInt(n).Bytes()
		} else {
			raw = []byte(s)
		}
		n := new(big.Int).SetBytes(raw)
		if n.BitLen() > v.size {
			return "", fmt.Errorf("data too long: %x", raw)
		}
		return hex.EncodeToString(n.FillBytes(make([]byte, (v.size+7)/8))), nil
	case "uuid":
		if isBytes {
			if len(raw) != 16 || drv == "pq" {
				return bad()
			}
			if drv == "mssql" {
				raw = swapUUID(raw)
			}
			s = hex.EncodeToString(raw)
		}
		m := reUUID.FindStringSubmatch(s)
		if m == nil {
			return bad()
		}
		return strings.ToLower(strings.Join(m[1:], "-")), nil
	case "date", "timestamp", "timestamptz", "offset":
		if drv == "pgx" || drv == "pq" {
			switch strings.ToLower(s) {
			case "infinity", "+infinity":
				return "infinity", nil
			case "-infinity":
				return "-infinity", nil
			}
		}
		m := reStamp.FindStringSubmatch(s)
		if m == nil {
			return bad()
		}
		n := make([]int, 8)
		for i := 1; i <= 6; i++ {
			n[i], _ = strconv.Atoi(m[i])
		}
		if drv == "mysql" && n[1] == 0 && n[2] == 0 && n[3] == 0 {
			if v.family == "date" {
				return "0000-00-00", nil
			}
			return "0000-00-00 00:00:00", nil
		}
		frac := strings.TrimRight(m[7], "0")
		digits := v.size
		if drv == "mssql" && (v.name == "datetime" && len(m[7]) > 3 || v.name == "smalldatetime" && len(m[7]) > 3 || len(m[7]) > 7) {
			return "", fmt.Errorf("conversion failed: %q", s)
		}
		if v.family != "date" && len(frac) > digits {
			frac = frac[:digits] + "~" // rounded
			return n2(n) + "." + frac, nil
		}
		nanos, _ := strconv.Atoi((frac + "000000000")[:9])
		t := time.Date(n[1], time.Month(n[2]), n[3], n[4], n[5], n[6], nanos, time.UTC)
		if n[1] == 0 || t.Year() != n[1] || int(t.Month()) != n[2] || t.Day() != n[3] || n[5] > 59 || n[6] > 59 {
			return bad()
		}
		switch v.family {
		case "date":
			return t.Format("2006-01-02"), nil
		case "timestamptz":
			off, err := zoneOffset(m[8], session)
			if err != nil {
				return "", err
			}
			t = t.Add(-time.Duration(off) * time.Second)
		case "offset":
			off, _ := zoneOffset(m[8], "UTC")
			t = time.Date(n[1], time.Month(n[2]), n[3], n[4], n[5], n[6], nanos, time.FixedZone("", off))
			return t.Format("2006-01-02 15:04:05.999999999-07:00"), nil
		default:
			if m[8] != "" && drv != "pgx" && drv != "pq" {
				if off, _ := zoneOffset(m[8], "UTC"); off != 0 || drv == "mysql" {
					return bad()
				}
			}
		}
		return t.Format("2006-01-02 15:04:05.999999999"), nil
	case "time":
		m := reTime.FindStringSubmatch(s)
		if m == nil || m[1] == "0000" {
			return bad()
		}
		hours, _ := strconv.Atoi(strings.TrimPrefix(m[2], "-"))
		if drv != "mysql" && (hours > 24 || m[2][0] == '-') {
			return bad()
		}
		out := fmt.Sprintf("%s:%s:%s", m[2], m[3], (m[4] + "00")[:2])
		if f := strings.TrimRight(m[5], "0"); f != "" {
			if len(f) > v.size {
				return out + "." + f[:v.size] + "~", nil
			}
			out += "." + f
		}
		if strings.HasPrefix(v.name, "timetz") {
			off, err := zoneOffset(m[6], session)
			if err != nil {
				return "", err
			}
			sign := "+"
			if off < 0 {
				sign, off = "-", -off
			}
			out += fmt.Sprintf("%s%02d:%02d", sign, off/3600, off/60%60)
		} else if m[6] != "" && drv == "mysql" {
			return bad()
		}
		return out, nil
	case "bits":
		if strings.Trim(s, "01") != "" || v.size > 0 && (len(s) > v.size || v.name[:3] == "bit" && len(s) != v.size) {
			return bad()
		}
		return s, nil
	case "array":
		elems, err := pgArrayElems(s)
		if err != nil {
			return "", err
		}
		for i, e := range elems {
			if e == nil {
				continue
			}
			elem := *e
			switch {
			case v.name == "boolean[]":
				elem = map[string]string{"t": "t", "true": "t", "1": "t", "f": "f", "false": "f", "0": "f"}[elem]
				if elem == "" {
					return bad()
				}
			case !has([]string{"text[]", "varchar(10)[]", "uuid[]", "char(3)[]", "timestamptz(3)[]"}, v.name):
				if elem, err = canonNumber(elem); err != nil {
					return "", err
				}
			}
			elems[i] = &elem
		}
		return pgArrayText(elems), nil
	}
	core.Broken("C21: family %q", v.family)
	return "", nil
}

func n2(n []int) string {
	return fmt.Sprintf("%04d-%02d-%02d %02d:%02d:%02d", n[1], n[2], n[3], n[4], n[5], n[6])
}

var reNumeric = regexp.MustCompile(`^\s*([+-]?)(\d*)(?:\.(\d*))?(?:[eE]([+-]?\d+))?\s*$`)

// canonNumber writes a number without leading and trailing zeros.
func canonNumber(s string) (string, error) {
	switch strings.ToLower(s) {
	case "nan":
		return "NaN", nil
	case "infinity", "inf", "+inf", "+infinity":
		return "Infinity", nil
	case "-infinity", "-inf":
		return "-Infinity", nil
	}
	m := reNumeric.FindStringSubmatch(s)
	if m == nil || m[2]+m[3] == "" {
		return "", fmt.Errorf("not a number: %q", s)
	}
	r, ok := new(big.Rat).SetString(strings.TrimSpace(s))
	if !ok {
		return "", fmt.Errorf("not a number: %q", s)
	}
	out := r.FloatString(400)
	out = strings.TrimRight(strings.TrimRight(out, "0"), ".")
	if out == "-0" {
		out = "0"
	}
	return out, nil
}

// pgArrayElems reads a one-dimensional array as Postgres does; nil is NULL.
func pgArrayElems(s string) (out []*string, err error) {
	fail := fmt.Errorf("malformed array literal: %q", s)
	if len(s) < 2 || s[0] != '{' || s[len(s)-1] != '}' {
		return nil, fail
	}
	if strings.Trim(s[1:len(s)-1], " \t\n\r\v\f") == "" {
		return nil, nil
	}
	i := 1
	for {
		for i < len(s) && strings.ContainsRune(" \t\n\r\v\f", rune(s[i])) {
			i++
		}
		var b strings.Builder
		quoted := false
		if i < len(s) && s[i] == '"' {
			quoted = true
			for i++; i < len(s) && s[i] != '"'; i++ {
				if s[i] == '\\' {
					i++
				}
				if i >= len(s) {
					return nil, fail
				}
				b.WriteByte(s[i])
			}
			if i >= len(s) {
				return nil, fail
			}
			i++
			for i < len(s) && s[i] == ' ' {
				i++
			}
		} else {
			for i < len(s) && !strings.ContainsRune(`,{}"`, rune(s[i])) {
				if s[i] == '\\' {
					quoted = true
					i++
				}
				if i >= len(s) {
					return nil, fail
				}
				b.WriteByte(s[i])
				i++
			}
		}
		e := b.String()
		if !quoted {
			e = strings.Trim(e, " \t\n\r\v\f")
			if e == "" {
				return nil, fail
			}
		}
		if !quoted && strings.EqualFold(e, "NULL") {
			out = append(out, nil)
		} else {
			out = append(out, &e)
		}
		if i >= len(s) {
			return nil, fail
		}
		switch {
		case s[i] == ',':
			i++
		case s[i] == '}' && i == len(s)-1:
			return out, nil
		default:
			return nil, fail
		}
	}
}

func pgArrayText(elems []*string) string {
	var parts []string
	for _, e := range elems {
		switch {
		case e == nil:
			parts = append(parts, "NULL")
		case *e == "" || strings.EqualFold(*e, "NULL") || strings.ContainsAny(*e, "{},\"\\ \t\n\r\v\f"):
			parts = append(parts, `"`+strings.NewReplacer(`\`, `\\`, `"`, `\"`).Replace(*e)+`"`)
		default:
			parts = append(parts, *e)
		}
	}
	return "{" + strings.Join(parts, ",") + "}"
}

// arrayOf gives an array of every list of at most n elements.
func arrayOf(elems []string, n int) []string {
	out := []string{"{}"}
	var rec func(cur []*string)
	rec = func(cur []*string) {
		if len(cur) > 0 {
			out = append(out, pgArrayText(cur))
		}
		if len(cur) < n {
			for i := range elems {
				rec(append(append([]*string(nil), cur...), &elems[i]))
			}
		}
	}
	rec(nil)
	return out
}

// stringsOver lists the strings of at most n parts.
func stringsOver(parts []string, n int) []string {
	out := []string{""}
	last := out
	for ; n > 0; n-- {
		var next []string
		for _, s := range last {
			for _, p := range parts {
				next = append(next, s+p)
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

// valTypes is the types of a driver with their values.
func valTypes(drv string, thorough bool) []valType {
	dialect := valDialect(drv)
	types := map[string]xType{}
	for _, t := range xTypeList(dialect) {
		types[t.col.ColumnType] = t
	}
	var out []valType
	add := func(name, family string, size int, values ...string) {
		t, ok := types[name]
		if !ok {
			t = types[map[string]string{"postgres": "text", "mysql": "int", "sqlserver": "int"}[dialect]]
			t.raw, t.col.ColumnType = name, name
			if dialect == "postgres" {
				t.oid = 9000 + int64(len(out))
			}
			if dialect == "sqlserver" {
				t.oid = map[string]int64{"text": 35, "ntext": 99, "smallmoney": 122}[name]
				t.mod = t.oid
			}
		}
		out = append(out, valType{name: name, typ: t, family: family, size: size, values: values})
	}
	ints := func(bits uint, unsigned bool) []string {
		hi := new(big.Int).Lsh(big.NewInt(1), bits)
		lo := big.NewInt(0)
		if !unsigned {
			hi.Rsh(hi, 1)
			lo.Neg(hi)
		}
		max := new(big.Int).Sub(hi, big.NewInt(1))
		list := []string{lo.String(), "0", "1", max.String(), new(big.Int).Sub(max, big.NewInt(1)).String()}
		if !unsigned {
			list = append(list, "-1")
		}
		if bits == 64 {
			list = append(list, "9007199254740993")
		}
		return list
	}
	n := 2
	if thorough {
		n = 3
	}
	texts := stringsOver([]string{"a", "é", `"`, "'", ",", "\n", "\r", "\t", `\`, "N", "0x", " ", "[", "]", "{", "}", "%s", ";", "#", "1"}, n)
	var some []string
	for _, s := range texts {
		if s != `\N` && s != "NULL" && !strings.Contains(s, "\r\n") {
			some = append(some, s)
		}
	}
	texts = some
	bin := func(size int) (list []string) {
		if size == 0 {
			list = append(list, "", "00", "ff", "30", "0d0a", "5c4e", "3078", "30783030")
			for b := 0; b < 256; b++ {
				list = append(list, fmt.Sprintf("%02x%02x", b, 255-b))
			}
			return list
		}
		for _, b := range []string{"00", "ff", "41", "0a", "c3"} {
			list = append(list, strings.Repeat(b, size), strings.Repeat("20", size-1)+b)
		}
		return list
	}
	floats := []string{"0", "0.1", "-1.5", "1e+15", "1e-07", "3.25", "-0.0078125"}
	doubles := append([]string{"1.7976931348623157e+308", "5e-324", "-1e+300", "123456789.12345679", "0.30000000000000004"}, floats...)
	uuids := []string{"00000000-0000-0000-0000-000000000000", "01234567-89ab-cdef-0123-456789abcdef", "ffffffff-ffff-ffff-ffff-ffffffffffff", "22223078-4e5c-0a0d-2c2c-2c2c0a0d2c22"}
	dates := []string{"2023-01-02", "2024-02-29", "1969-12-31", "1970-01-01", "1752-09-14", "9999-12-31", "2023-10-29"}
	stamps := func(digits int, years ...string) (list []string) {
		for _, d := range append([]string{"2023-01-02", "2024-02-29", "1970-01-01"}, years...) {
			for _, h := range []string{"00:00:00", "12:34:56", "23:59:59"} {
				list = append(list, d+" "+h)
				for _, f := range []int{1, 3, 6, 7} {
					if f <= digits {
						list = append(list, d+" "+h+"."+"0123456789"[1:f]+"9", d+" "+h+"."+strings.Repeat("0", f-1)+"1")
					}
				}
			}
		}
		return list
	}
	clock := func(digits int, zones ...string) (list []string) {
		if len(zones) == 0 {
			zones = []string{""}
		}
		for _, h := range []string{"00:00:00", "00:00:01", "12:34:56", "23:59:59"} {
			for _, f := range []string{"", ".5", ".001", ".123456", ".0000001"} {
				if len(f) <= digits+1 {
					for _, z := range zones {
						list = append(list, h+f+z)
					}
				}
			}
		}
		return list
	}
	switch dialect {
	case "postgres":
		add("smallint", "int", 16, ints(16, false)...)
		add("int", "int", 32, ints(32, false)...)
		add("bigint", "int", 64, ints(64, false)...)
		add("numeric", "numeric", 0, "0", "0.1", "-1.5", "12345678901234567890.123456789", "0.00000000000000000001", "123456789012345678", "-98765432109876543210", "1000000000000000000000000000000", "NaN")
		add("numeric(10,2)", "numeric", 0, "0", "99999999.99", "-0.01", "1.5")
		add("numeric(38,37)", "numeric", 0, "1.2345678901234567890123456789012345678", "0.1")
		add("real", "float", 32, append([]string{"NaN", "+Inf", "-Inf", "3.4028235e+38", "1e-45", "16777216"}, floats...)...)
		add("double precision", "float", 64, append([]string{"NaN", "+Inf", "-Inf"}, doubles...)...)
		add("boolean", "bool", 0, "true", "false")
		add("text", "text", 0, texts...)
		add("varchar(10)", "text", 0, "", "a", "0", "NULL ", "0x41")
		add("char(3)", "text", 0, "a  ", "abc", "   ")
		add("bytea", "binary", 0, bin(0)...)
		add("uuid", "uuid", 0, uuids...)
		add("json", "text", 0, `{"a": [1, "x"]}`, `[1, 2]`, `[]`, `""`, `null`, `"a<b"`, " {}\n")
		add("jsonb", "text", 0, `{"a": [1, "x"]}`, `[1, 2]`, `[]`, `""`, `null`)
		add("mood", "text", 0, "happy", "it's", "")
		add("inet", "text", 0, "10.0.0.1/8", "::1")
		add("interval", "text", 0, "1 day 02:03:04.5", "-1 years", "00:00:00")
		add("xml", "text", 0, "<a>&lt;</a>", "")
		add("tsvector", "text", 0, "'a':1 'b':2")
		add("hstore", "text", 0, `"a"=>"1", "b"=>NULL`)
		add("varchar", "text", 0, "", "a\"b", "0x41")
		add("citext", "text", 0, "", "A", "[1]")
		add("point", "text", 0, "(1,2)")
		add("int4range", "text", 0, "[1,5)", "empty")
		add("money", "text", 0, "$1,234.00")
		add("date", "date", 0, append([]string{"infinity", "-infinity", "0001-01-01"}, dates...)...)
		add("timestamp", "timestamp", 6, append(stamps(6, "1900-01-01", "0001-01-02", "9999-12-31"), "infinity", "-infinity")...)
		add("timestamp(3)", "timestamp", 3, stamps(3)...)
		add("timestamptz", "timestamptz", 6, append(stamps(6, "1900-01-01", "9999-12-30"), "infinity", "-infinity")...)
		clocks, tzs := clock(6), clock(6, "+00:00", "+05:30", "-08:00")
		if drv == "pgx" {
			clocks, tzs = append(clocks, "24:00:00"), append(tzs, "24:00:00+09:00")
		}
		add("time", "time", 6, clocks...)
		add("time(6)", "time", 6, "12:34:56.123456")
		add("timetz", "time", 6, tzs...)
		add("bit(8)", "bits", 8, "00000000", "10101010", "11111111", "00000001")
		add("bit(1)", "bits", 1, "0", "1")
		add("varbit(8)", "bits", 8, "", "0", "1", "101", "11111111")
		add("varbit", "bits", 0, "", "1", "000", strings.Repeat("10", 40))
		add("int[]", "array", 0, arrayOf([]string{"0", "-1", "2147483647"}, n)...)
		add("smallint[]", "array", 0, arrayOf([]string{"0", "-32768"}, n)...)
		add("bigint[]", "array", 0, arrayOf([]string{"0", "9223372036854775807", "-9007199254740993"}, n)...)
		add("real[]", "array", 0, arrayOf([]string{"0.5", "-3"}, n)...)
		add("char(3)[]", "array", 0, arrayOf([]string{"a  ", "b"}, n)...)
		add("timestamptz(3)[]", "array", 0, arrayOf([]string{"2023-01-02 00:00:00+00"}, n)...)
		add("boolean[]", "array", 0, arrayOf([]string{"t", "f"}, n)...)
		add("double precision[]", "array", 0, arrayOf([]string{"0.5", "-3", "1.25"}, n)...)
		add("text[]", "array", 0, arrayOf([]string{"a", "", "NULL", `"`, `\`, "\n", "\t", ",", "{", "}", "a b", "<&>", "é", " ", "[", "]", "null", "\x01", "'"}, n)...)
		add("varchar(10)[]", "array", 0, arrayOf([]string{"a", "b c"}, n)...)
		add("uuid[]", "array", 0, arrayOf(uuids[:2], n)...)
		add("numeric(10,2)[]", "array", 0, arrayOf([]string{"0.5", "12345678.25"}, n)...)
	case "mysql":
		for _, x := range []struct {
			name string
			bits uint
		}{{"tinyint", 8}, {"smallint", 16}, {"mediumint", 24}, {"int", 32}, {"bigint", 64}} {
			add(x.name, "int", int(x.bits), ints(x.bits, false)...)
			add(x.name+" unsigned", "int", int(x.bits), ints(x.bits, true)...)
		}
		add("tinyint(1)", "int", 8, "0", "1", "-1", "127")
		add("decimal(10,2)", "numeric", 0, "0", "99999999.99", "-0.01", "1.5")
		add("decimal(65,30)", "numeric", 0, "12345678901234567890123456789012345.012345678901234567890123456789", "0.000000000000000000000000000001")
		add("decimal(10,2) unsigned", "numeric", 0, "0", "99999999.99")
		add("float", "float", 32, "0", "0.1", "-1.5", "123457")
		add("double", "float", 64, doubles...)
		add("bit(1)", "mybit", 1, "00", "01")
		add("bit(8)", "mybit", 8, "00", "01", "30", "31", "ff")
		add("bit(64)", "mybit", 64, "0000000000000000", "ffffffffffffffff", "3078303000000041")
		add("text", "text", 0, texts...)
		add("varchar(10)", "text", 0, "", "a", "0", "0x41")
		add("char(3)", "text", 0, "", "a", "abc")
		add("enum('a','B','it''s')", "text", 0, "a", "B", "it's")
		add("set('x','Y')", "text", 0, "", "x", "x,Y")
		add("year", "text", 0, "1901", "2155", "0000")
		add("json", "text", 0, `{"a": [1, "x"]}`, `[1, 2]`, `""`, `null`)
		add("blob", "binary", 0, bin(0)...)
		for _, size := range []string{"tinyblob", "mediumblob"} {
			add(size, "binary", 0, bin(0)[:8]...)
		}
		for _, size := range []string{"tinytext", "mediumtext", "longtext"} {
			add(size, "text", 0, "", "a,b", "0x41")
		}
		add("longblob", "binary", 0, bin(0)[:8]...)
		add("varbinary(20)", "binary", 0, bin(0)[:8]...)
		add("binary(16)", "binary", 16, bin(16)...)
		add("date", "date", 0, append([]string{"0000-00-00", "1000-01-01"}, dates...)...)
		add("datetime", "timestamp", 0, append(stamps(0, "1000-01-01", "9999-12-31"), "0000-00-00 00:00:00")...)
		add("datetime(6)", "timestamp", 6, append(stamps(6, "1000-01-01"), "0000-00-00 00:00:00")...)
		add("timestamp", "timestamp", 0, append(stamps(0, "2038-01-18"), "0000-00-00 00:00:00")...)
		add("time", "time", 0, "00:00:00", "12:34:56", "-12:34:56", "838:59:59", "-838:59:59", "100:00:00")
		add("time(3)", "time", 3, "00:00:00.001", "-00:00:00.5", "12:34:56.789")
	case "sqlserver":
		add("tinyint", "int", 8, ints(8, true)...)
		add("smallint", "int", 16, ints(16, false)...)
		add("int", "int", 32, ints(32, false)...)
		add("bigint", "int", 64, ints(64, false)...)
		add("bit", "bool", 0, "true", "false")
		add("decimal(10,2)", "numeric", 0, "0", "99999999.99", "-0.01", "1.5")
		add("numeric(18,0)", "numeric", 0, "0", "999999999999999999", "-123456789012345678")
		add("money", "numeric", 0, "0", "922337203685477.5807", "-0.0001")
		add("float", "float", 64, doubles...)
		add("real", "float", 32, append([]string{"3.4028235e+38", "16777216"}, floats...)...)
		add("nvarchar(MAX)", "text", 0, texts...)
		add("nvarchar(10)", "text", 0, "", "a", "0x41")
		add("varchar(255)", "text", 0, "", "a", "0")
		add("nchar(3)", "text", 0, "a  ", "abc")
		add("xml", "text", 0, "<a>&lt;</a>", "")
		add("ntext", "text", 0, "", "é,\n")
		add("text", "text", 0, "", "a,\n")
		add("smallmoney", "numeric", 0, "214748.3647", "-0.0001")
		add("varbinary(MAX)", "binary", 0, bin(0)...)
		add("binary(16)", "binary", 16, bin(16)...)
		add("uniqueidentifier", "uuid", 0, uuids...)
		add("date", "date", 0, append([]string{"0001-01-01"}, dates...)...)
		add("datetime", "timestamp", 3, "1753-01-01 00:00:00", "2023-01-02 12:34:56.997", "2023-01-02 12:34:56.003", "9999-12-31 23:59:59.997")
		add("smalldatetime", "timestamp", 0, "1900-01-01 00:00:00", "2079-06-06 23:59:00")
		add("datetime2", "timestamp", 7, stamps(7, "0001-01-01", "9999-12-31")...)
		add("datetime2(3)", "timestamp", 3, stamps(3)...)
		var offs []string
		for _, z := range []string{"+00:00", "+05:30", "-08:00", "+14:00"} {
			for _, s := range []string{"2023-01-02 00:00:00", "2023-01-02 23:59:59.1234567", "1970-01-01 12:00:00"} {
				offs = append(offs, s+z)
			}
		}
		add("datetimeoffset", "offset", 7, offs...)
		add("time", "time", 7, clock(7)...)
		add("time(4)", "time", 4, "12:34:56.1234", "00:00:00")
	}
	return out
}

// canon is how the model writes a stored value back.
func (v valType) canon(s string) string {
	switch v.family {
	case "numeric":
		c, err := canonNumber(s)
		if err != nil {
			core.Broken("C21: %v", err)
		}
		return c
	case "float":
		f, _ := strconv.ParseFloat(s, v.size)
		return strconv.FormatFloat(f, 'g', -1, v.size)
	}
	return s
}

type valOpts struct {
	null, prefix, format string
	array, uuid          bool
	batch                int
}

func (o valOpts) String() string {
	return fmt.Sprintf("null=%q binary=%q format=%s array=%v uuid=%v batch=%d", o.null, o.prefix, o.format, o.array, o.uuid, o.batch)
}

// valTrip dumps a table, loads it into an empty copy and compares the rows.
func valTrip(t *core.T, drv string, types []valType, rows [][]string, o valOpts) {
	dialect := valDialect(drv)
	dir := scratchDir()
	defer os.RemoveAll(dir)
	src := newValServer(drv, types, rows)
	defer src.close()
	dump := &ddl.DumpCmd{DB: src.DB(), Dialect: dialect, OutputDir: dir, Stderr: io.Discard, DataOnly: true, Nullstring: o.null, Binaryprefix: o.prefix, ArrayAsJSON: o.array, UUIDAsBytes: o.uuid}
	name := "vals.csv"
	switch o.format {
	case "zip":
		dump.Zip, name = "d.zip", "d.zip"
	case "tgz":
		dump.Tgz, name = "d.tgz", "d.tgz"
	}
	err := dump.Run()
	t.Step(1)
	t.Nontrivial()
	if src.unknown != "" {
		t.Logf("not judged: %s", src.unknown)
		return
	}
	if err != nil {
		t.Fail("dump-error", "dump: %v", err)
		return
	}
	dst := newValServer(drv, types, nil)
	defer dst.close()
	load := &ddl.LoadCmd{DB: dst.DB(), Dialect: dialect, DirFS: os.DirFS(dir), Filenames: []string{name}, Stderr: io.Discard, Batchsize: o.batch, Nullstring: o.null, Binaryprefix: o.prefix}
	err = load.Run()
	t.Step(1)
	if dst.unknown != "" {
		t.Logf("not judged: %s", dst.unknown)
		return
	}
	csv, _ := os.ReadFile(filepath.Join(dir, "vals.csv"))
	if len(csv) > 400 {
		csv = append(bytes.Clone(csv[:400]), "..."...)
	}
	if err != nil {
		t.Fail("load-error", "load: %v\ndumped as %q", err, csv)
		return
	}
	t.Trace(1)
	if len(dst.rows) != len(rows) {
		t.Fail("rows", "%d rows became %d", len(rows), len(dst.rows))
		return
	}
	if dst.zone != "Asia/Tokyo" {
		t.Fail("zone", "the session is left with time zone %s", dst.zone)
	}
	for n, row := range rows {
		for i, v := range row {
			want := v
			if v != vNull {
				want = src.types[i].canon(v)
			}
			t.State(drv, src.types[i].name, want)
			if got := dst.rows[n][i]; got != want {
				t.Fail("changed", "column %s of type %s: %q became %q\ndumped as %q", src.cols[i], src.types[i].name, want, got, csv)
				return
			}
		}
	}
}

func runC21(r *core.Runner) {
	for _, drv := range []string{"pgx", "pq", "mysql", "mssql"} {
		types := valTypes(drv, r.Thorough())
		opts := []valOpts{{}, {null: "NULL", prefix: `\x`, batch: 1}, {format: "zip", batch: 2}, {format: "tgz", null: "~"}}
		if valDialect(drv) == "postgres" {
			opts = append(opts, valOpts{array: true}, valOpts{uuid: true}, valOpts{array: true, uuid: true, null: "~", prefix: "#", format: "zip"})
		}
		for _, v := range types {
			v := v
			drv := drv
			for _, o := range opts {
				o := o
				// Every value alone between NULLs, then all of them.
				vals := v.values
				if len(vals) > 40 && o != opts[0] || len(vals) > 300 {
					vals = nil
				}
				for _, x := range vals {
					x := x
					r.Go(fmt.Sprintf("%s/%s/%q %s", drv, v.name, x, o), func(t *core.T) {
						valTrip(t, drv, []valType{v}, [][]string{{"1", vNull}, {"2", x}, {"3", vNull}}, o)
					})
				}
				r.Go(fmt.Sprintf("%s/%s/all %s", drv, v.name, o), func(t *core.T) {
					var rows [][]string
					for i, x := range v.values {
						rows = append(rows, []string{strconv.Itoa(2 * i), x})
						if i%3 == 0 {
							rows = append(rows, []string{strconv.Itoa(2*i + 1), vNull})
						}
					}
					valTrip(t, drv, []valType{v}, rows, o)
				})
			}
		}
		// Columns of two types side by side.
		for _, a := range types {
			for _, b := range types {
				a, b := a, b
				drv := drv
				r.Go(fmt.Sprintf("%s/%s+%s", drv, a.name, b.name), func(t *core.T) {
					var rows [][]string
					n := 12
					for i := 0; i < n; i++ {
						x, y := a.values[i*int(math.Max(1, float64(len(a.values)/n)))%len(a.values)], b.values[(i+3)%len(b.values)]
						if i%4 == 1 {
							x = vNull
						}
						if i%5 == 2 {
							y = vNull
						}
						rows = append(rows, []string{strconv.Itoa(i), x, y})
					}
					valTrip(t, drv, []valType{a, b}, rows, valOpts{batch: 5})
				})
			}
		}
	}
}
