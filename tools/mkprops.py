#!/usr/bin/env python3
"""Writes /verif/properties.jsonl (run once; the jsonl file is what is committed and read)."""
import json
P=[]
def p(id,title,statement,over,text,why,files,mech,observe,state=None):
    d=dict(id=id,title=title,statement=statement,quantifier=dict(over=over,text=text),why_tests_cant=why,
           anchors=dict(files=files,mechanism=[dict(name=n,where=w) for n,w in mech],observe_at=observe,hook_needed=None))
    if state: d["anchors"]["state"]=[dict(name=n,meaning=m,where=w) for n,m,w in state]
    assert len(title)<=80,title
    P.append(d)

p("C01","Every migration takes effect once, in order, and repeatables follow their file",
 "Whatever sequence of migrate, touch, rm and mv commands and file edits is performed, each migrate run executes exactly the scripts that are not recorded as successfully applied, plus those files under repeatable/ whose contents (ignoring CRLF versus LF) differ from what was last applied, and nothing else. Scripts run in filename order (or in the order they are named on the command line) with repeatables last, and undo scripts, schema.sql, indexes.sql, constraints.sql and non-SQL files are never executed as migrations. After a successful run the history table records every executed script as successful, with the checksum of its contents if it is repeatable.",
 ["histories","inputs","configurations"],
 "All bounded sequences of {migrate (all / explicit file lists), touch, rm, mv, edit, add, delete, break and repair a file} over small migration directories containing every file-name class.",
 "The test suite runs a handful of fixed migration directories once each; it never interleaves touch/rm/mv/edits/failures with migrate, nor compares what ran with what should have run.",
 ["ddl/migrate_cmd.go","ddl/ddl.go","ddl/touch_cmd.go","ddl/rm_cmd.go","ddl/mv_cmd.go"],
 [("history lookup and skip decision","ddl/migrate_cmd.go MigrateCmd.Run"),("file selection and ordering","ddl/ddl.go walkDir, sortAndFilterFilenames"),("history upsert in the script's own transaction","ddl/migrate_cmd.go MigrateCmd.run")],
 ["contents of the database after each command","rows of the history table","error returned by each command"],
 [("history table","filename -> checksum, success","sqddl_history")])

p("C02","A failed or interrupted migrate never half-applies a transaction group",
 "Consecutive ordinary migrations form one transaction, and each .tx.sql file its own: at whatever point a run fails, is interrupted or crashes, the effects of a group and the history rows saying it succeeded are either all present or all absent. A failure is always reported as an error, stops every later script from running, leaves the failed scripts recorded as not applied (or unrecorded), and running migrate again once the cause is gone reaches the same database and history as an uninterrupted run.",
 ["crash_points","fault_sequences","histories"],
 "Every database call made by the run (begin, exec, query, row fetch, commit, rollback) failing or crashing, every script of the directory failing, and every later repair, over all small directories mixing plain, .tx, .txoff and repeatable files.",
 "Tests only execute scripts that succeed on a healthy database; no test fails a call inside a run, none crashes one, none re-runs afterwards.",
 ["ddl/migrate_cmd.go","ddl/batch_insert.go","ddl/ddl.go"],
 [("transaction grouping","ddl/migrate_cmd.go MigrateCmd.Run queue"),("history rows written with the same transaction","ddl/migrate_cmd.go MigrateCmd.run"),("failure recording","ddl/migrate_cmd.go runWithRetry")],
 ["database contents and history after reopening","error of the run","error and result of the following run"])

p("C03","Lock timeouts are retried safely, undo scripts run only when due",
 "A migration that is transactional or a single statement is retried from scratch when, and only when, it fails with a lock timeout, at most the configured number of attempts and with delays between the base and the maximum delay; any other failure is final. When a non-transactional migration fails its undo script is executed exactly once if there is one, and undo scripts are never executed in any other situation. On every dialect the lock timeout is set on the session that runs the scripts before the first script and its previous value is put back when the run ends, however it ends.",
 ["fault_sequences","configurations"],
 "All outcomes (ok, lock timeout, other error) for every execution attempt of every script in small directories, for the four dialects and every small attempts setting, including failing undo scripts.",
 "No test produces a lock timeout or a failing non-transactional script, and the Postgres, MySQL and SQL Server branches of migrate need servers and are skipped.",
 ["ddl/migrate_cmd.go","ddl/ddl.go","drivers"],
 [("retry loop","ddl/migrate_cmd.go runWithRetry"),("undo","ddl/migrate_cmd.go undo"),("session value save/restore","ddl/ddl.go setSessionValue")],
 ["sequence of statements received by the database server","error of the run","delays announced on stderr"])

p("C04","ls predicts migrate; touch, rm and mv change only the history",
 "At every reachable state ls lists exactly the scripts the next migrate would execute (pending ones and failed ones), and its other views (applied, failed, missing, all) partition the files and history rows accordingly. touch records exactly the named (or all) scripts as successfully applied, rm removes exactly the named rows, mv renames exactly one row; none of them executes a script or touches any other table or row, and each reports the number of rows it changed or an error.",
 ["histories","inputs","configurations"],
 "All bounded histories of migrate/touch/rm/mv/file edits, followed by every ls view, over directories with awkward file names; plus each command under every single database fault.",
 "Each command has one golden test on one fixed directory; agreement between commands over histories is never examined, nor are errors reported by the database.",
 ["ddl/ls_cmd.go","ddl/touch_cmd.go","ddl/rm_cmd.go","ddl/mv_cmd.go","ddl/migrate_cmd.go"],
 [("pending computation","ddl/ls_cmd.go LsCmd.Run"),("upsert of history rows","ddl/touch_cmd.go"),("delete/update of history rows","ddl/rm_cmd.go, ddl/mv_cmd.go")],
 ["stdout of ls","history rows","user tables","scripts executed by a following migrate on a copy"])

p("C05","A generated SQLite migration turns the source schema into the destination",
 "For any two SQLite schemas (tables, columns, keys, unique constraints and foreign keys compared by their columns, indexes by their name), applying the generated migration to a database holding the source schema succeeds, and afterwards generating again from that database to the same destination produces nothing. With drop-objects the resulting database has exactly the destination's tables, columns (type, nullability, default), primary keys, unique constraints, foreign keys and indexes, and checks, generated columns, triggers, views and table options that both schemas have survive; without drop-objects the destination's missing tables, columns and indexes are added and nothing of the source changes (what SQLite cannot add to an existing table is refused without changing anything). The result is the same whether a schema is given as a database, a schema.json file, Go structs or a dump directory or archive.",
 ["inputs","configurations"],
 "All ordered pairs of schemas from a bounded grammar (tables, columns with types/defaults/nullability, keys, uniques, foreign keys, indexes, quoted names, columns dropped/added/altered in every combination), both drop modes, all source forms.",
 "The tests compare the generated text of a few hand-written pairs with golden files; the text is never executed and no pair outside those is tried.",
 ["ddl/sqlite_migration.go","ddl/generate_cmd.go","ddl/ddl.go","ddl/database_introspector.go","ddl/catalog_cache.go"],
 [("schema diff","ddl/sqlite_migration.go newSQLiteMigration"),("DDL rendering","ddl/sqlite_migration.go sql, ddl/ddl.go writeCreateTable")],
 ["schema of a real SQLite database after executing the generated files","output of a second generate"])

p("C06","Generated SQLite migrations keep the data",
 "Executing a generated SQLite migration through migrate on a populated database keeps every row of every surviving table and every value of every surviving column, with foreign key enforcement on or off, even when a table has to be rebuilt; new columns hold their default; it leaves no foreign key violation that was not there before and no leftover temporary table. Without drop-objects no table, column, constraint or index of the source is removed. If the destination cannot hold the data (for instance a new NOT NULL or UNIQUE rule) the run fails and leaves the database as it was.",
 ["inputs","configurations"],
 "All pairs from the bounded schema grammar times small populations including rows related by foreign keys with every referential action, foreign keys on and off, both drop modes.",
 "No test runs a generated migration against a table containing rows.",
 ["ddl/sqlite_migration.go","ddl/migrate_cmd.go"],
 [("table rebuild: create new, copy, drop, rename","ddl/sqlite_migration.go")],
 ["rows before and after","PRAGMA foreign_key_check","sqlite_schema before and after"])

p("C07","Generated Postgres, MySQL and SQL Server migrations reach the destination",
 "For each of Postgres, MySQL and SQL Server and for any two schemas (tables, columns, keys, foreign keys and indexes; objects of the same name keep their definition unless they are columns), executing the generated files in filename order on the source schema is accepted at every statement (each object exists when used, is not created twice, sits in the right schema and table, names are quoted) and ends in the destination schema; with nothing to change, nothing is generated. Without drop-objects no object of the source disappears, except constraints and indexes that have to be replaced by the destination's or rebuilt around an altered column. Objects declared for other dialects count as absent. Every Postgres file that creates an index concurrently, and every MySQL file that creates tables or schemas, comes with an undo script that removes what the file had created up to any statement and nothing else.",
 ["inputs","configurations"],
 "All ordered pairs from a bounded schema grammar (two schemas, three tables, columns, types, defaults, collations, identity, keys, uniques, foreign keys incl. cyclic and self references, indexes), both drop modes, several server versions.",
 "Golden files cover a few hand-written pairs as text; the text is never checked against any notion of what the statements do, and the tests needing servers are skipped.",
 ["ddl/postgres_migration.go","ddl/mysql_migration.go","ddl/sqlserver_migration.go","ddl/generate_cmd.go","ddl/ddl.go"],
 [("schema diff and step ordering","ddl/{postgres,mysql,sqlserver}_migration.go"),("DDL rendering","ddl/ddl.go write*")],
 ["state of a catalog model after interpreting the generated files in sorted order"])

p("C08","Unsafe changes always carry a warning, and warnings block writing",
 "Generated Postgres, MySQL and SQL Server changes that rewrite or may lose data (column type changes outside the documented safe list, narrowing a length, precision or scale, NOT NULL columns added without a default on Postgres and SQL Server, changes the server version cannot do without a long lock) always produce a warning naming the table and column, and safe changes produce none. When there is any warning, generate writes no file and reports failure unless warnings are accepted or it is a dry run; without warnings, or with them accepted, the files written to the directory are, undo scripts aside, exactly those a dry run shows.",
 ["inputs","configurations"],
 "All ordered pairs of column types of each dialect with their arguments, nullability/default/identity changes, server versions, and all combinations of the accept-warnings, dry-run and drop-objects switches.",
 "The golden tests contain a couple of warnings each; the type-pair matrix and the switch combinations are never enumerated.",
 ["ddl/postgres_migration.go","ddl/mysql_migration.go","ddl/sqlserver_migration.go","ddl/generate_cmd.go"],
 [("type-pair tables","ddl/postgres_migration.go sql, ddl/mysql_migration.go sql"),("gate","ddl/generate_cmd.go GenerateCmd.Run")],
 ["warnings returned","files in the output directory","error"])

p("C09","automigrate reaches the declared schema from anywhere and then rests",
 "Starting from any database, a successful automigrate leaves it satisfying the destination schema exactly as generate followed by migrate would, without creating or changing a migration history, and running it again executes nothing. A dry run prints the same statements and changes nothing; when a statement fails, the error is reported and a transactional change is rolled back.",
 ["inputs","histories","configurations"],
 "All ordered pairs (current, destination) of the bounded SQLite schema grammar at distance one, and all pairs of foreign key networks, with rows, with and without a migration history, in both drop modes; every database call failing or crashing for the failure part.",
 "There is no test of automigrate beyond the shared generator's golden files.",
 ["ddl/automigrate_cmd.go","ddl/generate_cmd.go","ddl/migrate_cmd.go"],
 [("generate in memory then migrate without history","ddl/automigrate_cmd.go")],
 ["database schema and rows","history table absence","stdout/stderr"])

p("C10","Schema representations convert into each other without loss",
 "A schema keeps its meaning when it is converted between a database, table structs in Go source and schema.json: the tables command writes Go source that parses back to the same tables, columns, types, defaults, collations, keys, uniques, foreign keys and plain indexes (for names without comma, dot or brace), and writing and reading schema.json, copying a catalog or regenerating the source is the identity. Struct declarations mean what the tag reference says, in every dialect and independent of declaration order, and unknown or malformed modifiers are reported with their position instead of being silently dropped.",
 ["inputs"],
 "All table declarations from a bounded tag grammar (modifiers, sub-modifiers, values with braces, quotes and spaces, multi-column keys, dialect prefixes) and all schemas from the bounded schema grammars, for every dialect.",
 "Round trips are tested on the single sakila schema; the tag parser on a list of examples.",
 ["ddl/struct_parser.go","ddl/table_structs.go","ddl/modifier.go","ddl/tables_cmd.go","ddl/ddl.go","ddl/catalog_cache.go"],
 [("tag parser","ddl/modifier.go, ddl/struct_parser.go"),("tag writer","ddl/table_structs.go"),("JSON encoding","ddl/ddl.go")],
 ["catalog before and after the round trip","reported errors"])

p("C11","dump followed by load reproduces the database",
 "Dumping a SQLite database and loading the dump into an empty one gives the same tables, constraints and indexes and the same rows with the same values, for every value of the column's own type (including empty, quotes, separators, line breaks other than carriage return plus newline, NUL and high bytes, fractional seconds), whatever the batch size and custom null and binary markers, and dumping again gives the same files. Excluded tables (and always the history table) are absent, schema-only and data-only dumps are exactly the corresponding part of a full one. Likewise the schema-only dump of a Postgres, MySQL or SQL Server database loads into an empty one and gives the same schemas, tables, columns (type, default, nullability, collation, identity, generated expression, ON UPDATE), keys, foreign keys, checks, exclusion constraints (each valid or not, deferrable or not) and indexes.",
 ["inputs","configurations"],
 "All rows over a value alphabet (NULL, empty, quotes, separators, newlines, unicode, markers, zero and high bytes, numbers, dates, booleans) times column types times key shapes, table and column names needing quotes, all switch combinations. For the other dialects all foreign key graphs over three tables in two schemas with up to two edges, all combinations of keys and indexes of one table, all column variants in eleven contexts, deferrable constraints, generated columns, valid and not valid checks and foreign keys and exclusion constraints, with plain and hostile names.",
 "The tests dump and load the sakila data set only, and compare it by eye-picked golden files.",
 ["ddl/dump_cmd.go","ddl/load_cmd.go","ddl/batch_insert.go","ddl/database_introspector.go"],
 [("CSV rendering","ddl/dump_cmd.go dumpCSV"),("CSV parsing and type conversion","ddl/load_cmd.go loadCSV"),("load order schema, rows, indexes, constraints","ddl/load_cmd.go")],
 ["sqlite_schema and typeof()/quote() of every value before and after","bytes of the second dump"])

p("C12","Dump directory, zip and tgz are interchangeable under every schedule",
 "A dump written as a directory, a zip file or a tar.gz file contains the same files with the same bytes whatever the order in which concurrent table queries make progress, and load gives the same database from any of them, also when the files sit in a subdirectory of the archive. If any query, row fetch or file operation fails, the command reports an error instead of a silently incomplete dump or load.",
 ["schedules","fault_sequences","configurations"],
 "All interleavings of the concurrent table dumps of small databases at database-call granularity, and a failure at every database call, row fetch and file write of dump and load.",
 "Tests run each format once with whatever schedule happens, never with a failing query or a failing row fetch.",
 ["ddl/dump_cmd.go","ddl/load_cmd.go"],
 [("errgroup per table","ddl/dump_cmd.go"),("archive readers","ddl/load_cmd.go")],
 ["files and bytes produced","database after load","error"])

p("C13","Loading CSV is exact, atomic per file, repeatable and batch independent",
 "Loading a CSV file inserts exactly its rows into the table it names, or, when rows with the same primary key exist, replaces exactly the listed columns of exactly those rows; loading it again gives the same as loading it row by row again (nothing changes unless the file contradicts itself), and the result does not depend on the batch size or column order. A file that cannot be loaded completely (wrong number of fields, unknown column, violated constraint, failing database call) leaves its table unchanged and the error is reported.",
 ["inputs","fault_sequences","configurations"],
 "All CSV files up to a row bound over a value/key alphabet, every row count around every batch size, all key shapes and column permutations, and a failure at every row and every database call; statement shape for all four dialects.",
 "The tests load well-formed sakila files once with the default batch size.",
 ["ddl/load_cmd.go","ddl/batch_insert.go"],
 [("batching and upsert","ddl/batch_insert.go BatchInsert.ExecContext"),("per-file transaction","ddl/load_cmd.go loadCSV")],
 ["table contents after each load","error","statements and arguments received by the server"])

p("C14","A subset dump is referentially complete and holds what was asked for",
 "Every row selected by a subset query appears in the dump, every row appearing refers (through any foreign key chain) only to rows that also appear, and every row appearing occurs in the source and exactly once. With an extended subset the rows referring to the selected ones appear as well. Loading a subset dump therefore never violates a foreign key that the source satisfies, and a query matching nothing gives an empty but loadable dump. Tables without a primary key are not part of subset dumps.",
 ["inputs"],
 "All foreign key graphs over up to four tables (chains, diamonds, self references, cycles, multi-column keys, nullable references) times small populations times subset queries on each table.",
 "The subsetter has an empty test file.",
 ["ddl/subsetter.go","ddl/dump_cmd.go"],
 [("foreign key graph walk and CTE construction","ddl/subsetter.go")],
 ["rows of the dumped CSV files compared with a reference closure","load of the dump with foreign keys enforced"])

p("C15","wipe empties the database, and only when told to",
 "A wipe of any SQLite, Postgres, MySQL or SQL Server database whose views can be read succeeds. After a successful wipe the database contains no table, view, trigger or index of its own (and on the other dialects no foreign key, routine, and on Postgres no enum, domain or extension apart from plpgsql), whatever the dependencies between them; system objects and the other databases of a MySQL server are left alone. A dry run prints the statements and changes nothing; if a statement fails, the error is reported and nothing is dropped on databases with transactional DDL.",
 ["inputs","fault_sequences"],
 "All small object graphs (tables with foreign keys in every topology and with rows, views over tables and views, triggers, virtual tables, names needing quotes) on SQLite; for Postgres, MySQL and SQL Server all foreign key graphs over three tables and all subsets of the kinds of objects (second schema, views on views, overloads, aggregates, materialized views, types, extensions with members, system objects) on emulated catalogs and a model of drops and dependencies; a failure at every database call.",
 "One golden dry-run test.",
 ["ddl/wipe_cmd.go","ddl/database_introspector.go","ddl/introspection_scripts"],
 [("drop ordering and deferred foreign keys","ddl/wipe_cmd.go")],
 ["sqlite_schema after the run","statements received by the server","error"])

p("C16","Introspection reports the schema as it is and honours every filter",
 "Introspecting a database reports every table, column (order, type, default, nullability, generated, primary key), constraint, index, view and trigger it has, once each and with its real attributes. Each include and exclude filter (schemas, tables, views, object types) removes exactly the objects it says and nothing else, the history table is invisible to the commands that read a schema, system objects never appear, and a failure while reading is reported rather than giving a shorter catalog.",
 ["inputs","configurations","fault_sequences"],
 "All schemas of the bounded SQLite grammar including quoted, mixed-case and LIKE-wildcard names, times all filter combinations, and a failure at every query and row fetch; for Postgres, MySQL, MariaDB and SQL Server every type, column form, constraint, name, comment and filter of the bounded grammar on emulated system catalogs of several versions.",
 "Introspection is tested on one schema with one filter per test.",
 ["ddl/database_introspector.go","ddl/introspection_scripts","ddl/catalog_cache.go"],
 [("introspection queries and filters","ddl/introspection_scripts/*.sql, ddl/database_introspector.go"),("catalog assembly","ddl/catalog_cache.go")],
 ["catalog returned versus a reference catalog built from PRAGMAs or from the model the system catalog was filled from","error"])

p("C17","Identifiers and values survive quoting unchanged on every dialect",
 "For every string and dialect, a quoted identifier or string literal produced by the tool, read by that dialect's lexical rules, is a single token denoting exactly that string, so names and values containing quotes, brackets, backslashes or keywords can neither be altered nor break out. Values substituted into a query text by Sprintf denote the same values at the same places as the parameters they replace (times to the second), placeholders inside quotes are left alone, and too few arguments are reported as an error. File names and table names given to migrate, ls, touch, mv and rm name exactly those rows and tables whatever they contain.",
 ["inputs"],
 "All strings up to a length bound over the alphabet of lexically significant characters, all value kinds, and all query skeletons up to a length bound, for the four dialects; SQLite answers come from SQLite itself.",
 "A few example strings per function.",
 ["ddl/sq.go","ddl/ddl.go"],
 [("quoting and escaping","ddl/ddl.go QuoteIdentifier, EscapeQuote; ddl/sq.go Sprintf, Sprint")],
 ["token value according to a reference lexer, and according to SQLite"])

p("C18","Database URLs select the intended dialect, driver and data source",
 "Every documented form of database URL or DSN is recognised as its dialect and handed to the driver in a form that denotes the same server, credentials, database and options, and unrecognised ones are reported as such rather than guessed. Values that may contain special characters (passwords, file paths, query options) pass through unchanged, and options the tool relies on are added only when absent.",
 ["inputs","configurations"],
 "All combinations of URL parts (scheme, user, password with special characters, host, port, database, options) per dialect, file names and contents for SQLite and file: indirections.",
 "A table of examples.",
 ["ddl/ddl.go","drivers"],
 [("dialect detection","ddl/ddl.go NormalizeDSN"),("driver rewriting","drivers/*/ PreprocessDSN")],
 ["dialect, driver name and DSN parsed by the drivers' own parsers"])

p("C19","The command line does what its flags say and its exit status tells the outcome",
 "For every subcommand, every combination of documented flags and file arguments has the effect that the documented fields of the library command have, however the command line is written: flags before or after file arguments, -flag value, -flag=value or --flag. A command line that cannot be obeyed (unknown subcommand or flag, missing or malformed value, missing file, unusable database) changes nothing, says why on standard error and exits with a non-zero status; success and help exit with status 0.",
 ["inputs","configurations"],
 "All sets of at most two (thorough: three) flags of the 12 subcommands, all spellings, all forms of -db and all kinds of bad command line.",
 "Tests call the library commands; the program itself is never executed and flag combinations are many.",
 ["main.go","ddl"],
 [("dispatch, argument reordering, exit status","main.go"),("flag parsing","ddl/*_cmd.go *Command functions")],
 ["files and database after the run, standard output and error, exit status"])

p("C20","View structs name every view, column and type of the source",
 "The views command writes Go source that compiles and, read by the documented naming rules, names exactly the views selected by the filters, each with its schema when that is not the current one, its columns in order and a field type fitting each column type. The same source gives the same text, whether printed or written to a file, and a previous file is replaced completely.",
 ["inputs","configurations"],
 "All view and column names up to the bound (cases, blanks, keywords, digits, punctuation, other alphabets), schemas, column types and enums of four dialects, pairs of views, and include/exclude filters.",
 "One golden database per dialect.",
 ["ddl/view_structs.go","ddl/views_cmd.go"],
 [("structs","ddl/view_structs.go NewViewStructs"),("selection and writing","ddl/views_cmd.go Run")],
 ["the Go source written"])

p("C21","Values of Postgres, MySQL and SQL Server columns survive dump and load",
 "For every column type of Postgres, MySQL and SQL Server and every value of it (limits of integers and decimals, floats, infinite and zero dates, fractions of seconds, offsets, bit strings, empty and arbitrary bytes, UUIDs, arrays, JSON, texts with special characters, NULL), dumping a table and loading the dump into an empty table of the same definition gives the same rows, whichever supported driver is used and with any null marker, binary prefix, batch size, archive format, and with arrays as JSON or UUIDs as bytes. The session time zone has no influence and is left as it was.",
 ["inputs","configurations"],
 "All listed types times boundary values times formats and options for pgx, lib/pq, MySQL and SQL Server; all pairs of types in one table; all short texts over an alphabet of special characters.",
 "The tests dump one sample database per dialect, and only SQLite is tested without servers.",
 ["ddl/dump_cmd.go","ddl/load_cmd.go","internal/pqarray"],
 [("reading and writing of values","ddl/dump_cmd.go dumpCSV"),("conversion of fields to parameters","ddl/load_cmd.go loadCSV, getColumnInfo")],
 ["rows of the table after the load","error","session time zone"])

with open("/verif/properties.jsonl","w") as f:
    for d in P: f.write(json.dumps(d)+"\n")
print(len(P))
