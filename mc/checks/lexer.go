package checks

import (
	"fmt"
	"strings"
	"unicode"
	"unicode/utf8"
)

// A reference lexer for the four SQL dialects, written from their manuals:
//
//	sqlite     '..' strings, "..", `..` and [..] identifiers, names are case preserving
//	postgres   '..' strings (standard_conforming_strings), ".." identifiers, other names fold to lower case
//	mysql      '..' and ".." strings with backslash escapes, `..` identifiers
//	sqlserver  '..' strings, ".." and [..] identifiers
//
// Doubling a closing quote stands for the quote, except in SQLite's [..].

type tokKind int

const (
	tWord   tokKind = iota // unquoted name or keyword
	tIdent                 // quoted identifier
	tString                // string literal
	tNumber
	tBlob // x'..' or 0x..
	tParam
	tOp
)

type token struct {
	kind tokKind
	text string // denoted value for identifiers and strings, the text itself otherwise
}

func (t token) String() string { return fmt.Sprintf("%d:%s", t.kind, t.text) }

func isWordStart(r rune) bool { return r == '_' || unicode.IsLetter(r) || r > 127 }
func isWordPart(dialect string, r rune) bool {
	return isWordStart(r) || r >= '0' && r <= '9' || r == '$' || dialect == "sqlserver" && (r == '@' || r == '#')
}

// lexSQL splits s into tokens, or says what is wrong with it.
func lexSQL(dialect, s string) ([]token, error) {
	var out []token
	for i := 0; i < len(s); {
		r, size := utf8.DecodeRuneInString(s[i:])
		rest := s[i:]
		switch {
		case unicode.IsSpace(r):
			i += size
		case strings.HasPrefix(rest, "--") && (dialect != "mysql" || len(rest) == 2 || unicode.IsSpace(rune(rest[2]))):
			if j := strings.IndexByte(rest, '\n'); j >= 0 {
				i += j
			} else {
				i = len(s)
			}
		case strings.HasPrefix(rest, "/*"):
			j := strings.Index(rest[2:], "*/")
			if j < 0 {
				return out, fmt.Errorf("unterminated comment")
			}
			i += j + 4
		case (r == 'x' || r == 'X') && strings.HasPrefix(rest[1:], "'") && dialect != "postgres" && dialect != "sqlserver":
			v, n, ok := quoted(rest[1:], '\'', true, false)
			if !ok {
				return out, fmt.Errorf("unterminated binary literal")
			}
			out = append(out, token{tBlob, strings.ToLower(v)})
			i += n + 1
		case r == '0' && len(rest) > 1 && rest[1] == 'x' && dialect == "sqlserver":
			j := 2
			for j < len(rest) && strings.IndexByte("0123456789abcdefABCDEF", rest[j]) >= 0 {
				j++
			}
			out = append(out, token{tBlob, strings.ToLower(rest[2:j])})
			i += j
		case r == '\'' || r == '"' && dialect == "mysql":
			v, n, ok := quoted(rest, rest[0], true, dialect == "mysql")
			if !ok {
				return out, fmt.Errorf("unterminated string")
			}
			out = append(out, token{tString, v})
			i += n
		case r == '"', r == '`' && (dialect == "mysql" || dialect == "sqlite"):
			v, n, ok := quoted(rest, rest[0], true, false)
			if !ok {
				return out, fmt.Errorf("unterminated identifier")
			}
			out = append(out, token{tIdent, v})
			i += n
		case r == '[' && (dialect == "sqlserver" || dialect == "sqlite"):
			v, n, ok := quoted(rest, ']', dialect == "sqlserver", false)
			if !ok {
				return out, fmt.Errorf("unterminated identifier")
			}
			out = append(out, token{tIdent, v})
			i += n
		case isWordStart(r):
			j := i
			for j < len(s) {
				q, n := utf8.DecodeRuneInString(s[j:])
				if !isWordPart(dialect, q) {
					break
				}
				j += n
			}
			out = append(out, token{tWord, s[i:j]})
			i = j
		case r >= '0' && r <= '9' || r == '.' && len(rest) > 1 && rest[1] >= '0' && rest[1] <= '9':
			j := i
			for j < len(s) {
				c := s[j]
				if c >= '0' && c <= '9' || c == '.' || isWordStart(rune(c)) && c < 128 || (c == '+' || c == '-') && (s[j-1] == 'e' || s[j-1] == 'E') {
					j++
					continue
				}
				break
			}
			out = append(out, token{tNumber, s[i:j]})
			i = j
		case isParamStart(dialect, rest):
			j := i + 1
			for j < len(s) {
				q, n := utf8.DecodeRuneInString(s[j:])
				if !isWordStart(q) && !(q >= '0' && q <= '9') {
					break
				}
				j += n
			}
			out = append(out, token{tParam, s[i:j]})
			i = j
		default:
			out = append(out, token{tOp, s[i : i+size]})
			i += size
		}
	}
	return out, nil
}

func isParamStart(dialect, s string) bool {
	switch dialect {
	case "sqlite":
		return strings.IndexByte("?$:@", s[0]) >= 0 && !strings.HasPrefix(s, "::")
	case "postgres":
		return s[0] == '$' && len(s) > 1 && s[1] >= '0' && s[1] <= '9'
	case "mysql":
		return s[0] == '?'
	}
	return s[0] == '@' || s[0] == '?'
}

// quoted reads a token that starts with an opening quote and ends with end. It returns
// the denoted value and the length of the text.
func quoted(s string, end byte, doubling, backslash bool) (string, int, bool) {
	var b strings.Builder
	for i := 1; i < len(s); i++ {
		switch {
		case backslash && s[i] == '\\':
			i++
			if i == len(s) {
				return "", 0, false
			}
			switch s[i] {
			case '0':
				b.WriteByte(0)
			case 'b':
				b.WriteByte('\b')
			case 'n':
				b.WriteByte('\n')
			case 'r':
				b.WriteByte('\r')
			case 't':
				b.WriteByte('\t')
			case 'Z':
				b.WriteByte(26)
			case '%', '_':
				b.WriteString(`\` + string(s[i]))
			default:
				b.WriteByte(s[i])
			}
		case s[i] == end:
			if doubling && i+1 < len(s) && s[i+1] == end {
				b.WriteByte(end)
				i++
				continue
			}
			return b.String(), i + 1, true
		default:
			b.WriteByte(s[i])
		}
	}
	return "", 0, false
}

// identifierValue is the name an identifier token denotes, false if the token cannot be
// used as a name of a table or column.
func identifierValue(dialect string, t token) (string, bool) {
	switch t.kind {
	case tIdent:
		return t.text, true
	case tWord:
		if reserved(dialect, strings.ToLower(t.text)) {
			return "", false
		}
		if dialect == "postgres" {
			return strings.ToLower(t.text), true
		}
		return t.text, true
	}
	return "", false
}

func reserved(dialect, w string) bool {
	switch dialect {
	case "postgres":
		return pgReserved[w]
	case "mysql":
		return mysqlReserved[w]
	case "sqlserver":
		return mssqlReserved[w]
	}
	return sqliteReserved[w]
}

func wordSet(s string) map[string]bool {
	out := map[string]bool{}
	for _, w := range strings.Fields(s) {
		out[w] = true
	}
	return out
}

// Reserved words (those that cannot name a table or column without quotes), from the
// appendix of each manual. SQLite's are measured in C17 as well.
var (
	sqliteReserved = wordSet(`add all alter and as autoincrement between case check collate commit constraint create default
		deferrable delete distinct drop else escape except exists foreign from group having in index insert intersect into is
		isnull join limit not notnull null on or order primary references returning select set table then to transaction union
		unique update using values when where nothing`)
	pgReserved = wordSet(`all analyse analyze and any array as asc asymmetric authorization binary both case cast check collate
		collation column concurrently constraint create cross current_catalog current_date current_role current_schema
		current_time current_timestamp current_user default deferrable desc distinct do else end except false fetch for foreign
		freeze from full grant group having ilike in initially inner intersect into is isnull join lateral leading left like
		limit localtime localtimestamp natural not notnull null offset on only or order outer overlaps placing primary
		references returning right select session_user similar some symmetric table tablesample then to trailing true union
		unique user using variadic verbose when where window with`)
	mysqlReserved = wordSet(`accessible add all alter analyze and as asc asensitive before between bigint binary blob both by
		call cascade case change char character check collate column condition constraint continue convert create cross cube
		cume_dist current_date current_time current_timestamp current_user cursor database databases day_hour day_microsecond
		day_minute day_second dec decimal declare default delayed delete dense_rank desc describe deterministic distinct
		distinctrow div double drop dual each else elseif empty enclosed escaped except exists exit explain false fetch
		first_value float float4 float8 for force foreign from fulltext function generated get grant group grouping groups
		having high_priority hour_microsecond hour_minute hour_second if ignore in index infile inner inout insensitive insert
		int int1 int2 int3 int4 int8 integer intersect interval into io_after_gtids io_before_gtids is iterate join json_table
		key keys kill lag last_value lateral lead leading leave left like limit linear lines load localtime localtimestamp lock
		long longblob longtext loop low_priority master_bind master_ssl_verify_server_cert match maxvalue mediumblob mediumint
		mediumtext middleint minute_microsecond minute_second mod modifies natural not no_write_to_binlog nth_value ntile null
		numeric of on optimize optimizer_costs option optionally or order out outer outfile over partition percent_rank
		precision primary procedure purge range rank read reads read_write real recursive references regexp release rename
		repeat replace require resignal restrict return revoke right rlike row rows row_number schema schemas
		second_microsecond select sensitive separator set show signal smallint spatial specific sql sqlexception sqlstate
		sqlwarning sql_big_result sql_calc_found_rows sql_small_result ssl starting stored straight_join system table
		terminated then tinyblob tinyint tinytext to trailing trigger true undo union unique unlock unsigned update usage use
		using utc_date utc_time utc_timestamp values varbinary varchar varcharacter varying virtual when where while window
		with write xor year_month zerofill`)
	mssqlReserved = wordSet(`add all alter and any as asc authorization backup begin between break browse bulk by cascade case
		check checkpoint close clustered coalesce collate column commit compute constraint contains containstable continue
		convert create cross current current_date current_time current_timestamp current_user cursor database dbcc deallocate
		declare default delete deny desc disk distinct distributed double drop dump else end errlvl escape except exec execute
		exists exit external fetch file fillfactor for foreign freetext freetexttable from full function goto grant group
		having holdlock identity identity_insert identitycol if in index inner insert intersect into is join key kill left like
		lineno load merge national nocheck nonclustered not null nullif of off offsets on open opendatasource openquery
		openrowset openxml option or order outer over percent pivot plan precision primary print proc procedure public
		raiserror read readtext reconfigure references replication restore restrict return revert revoke right rollback
		rowcount rowguidcol rule save schema securityaudit select semantickeyphrasetable semanticsimilaritydetailstable
		semanticsimilaritytable session_user set setuser shutdown some statistics system_user table tablesample textsize then
		to top tran transaction trigger truncate try_convert tsequal union unique unpivot update updatetext use user values
		varying view waitfor when where while with writetext`)
)
