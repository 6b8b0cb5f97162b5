package faultdb

/*
// Resolved when the program is linked with go-sqlite3's copy of SQLite.
extern int sqlite3_config(int, ...) __attribute__((weak));

static int no_memstatus(void) {
	if (!sqlite3_config) {
		return -1;
	}
	return sqlite3_config(9, 0); // SQLITE_CONFIG_MEMSTATUS
}
*/
import "C"

// SQLite's memory statistics take a process wide lock on every allocation, which makes
// parallel exploration slower than sequential.
var noMemstatus = C.no_memstatus()
