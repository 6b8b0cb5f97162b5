package checks

import (
	"context"
	"fmt"
	"regexp"
	"strings"
	"testing/fstest"
	"time"

	"github.com/bokwoon95/sqddl/ddl"
	"github.com/bokwoon95/sqddl/drivers/ddlpgx"
	"github.com/bokwoon95/sqddl/drivers/ddlpostgres"

	"verifmc/core"
	"verifmc/faultdb"
)

func init() {
	core.Register(&core.Check{
		Prop:  "C03",
		Level: "model_checking",
		Rule:  "one transition = one complete migrate run under one sequence of outcomes (ok, lock timeout, other error) for its script executions, commits and undo scripts; all sequences are enumerated by depth first search; the statements the server received are compared with a reference automaton; state = (directory, dialect, attempts, outcome prefix)",
		Assumptions: []string{
			"servers are stand-ins that keep session settings and the history table and answer with the real drivers' error values",
			"directories of up to 3 files; attempts 1 to 3 (3 files: 2, thorough 1 to 2), plus long retry chains",
		},
		Run: runC03,
	})
}

type retryFile struct {
	migFile
	single bool
}

type retryWorld struct {
	dialect  string
	files    []retryFile
	undo     bool
	attempts int
	initial  string
	timeout  time.Duration
	skip     bool
}

func (w retryWorld) key() string {
	var b strings.Builder
	if usePgx {
		b.WriteString("pgx ")
	}
	fmt.Fprintf(&b, "%s attempts=%d undo=%v initial=%s timeout=%s skip=%v:", w.dialect, w.attempts, w.undo, w.initial, w.timeout, w.skip)
	for _, f := range w.files {
		fmt.Fprintf(&b, " %s", f.name)
		if f.single {
			b.WriteString("(single)")
		}
	}
	return b.String()
}

func (w retryWorld) fs() fstest.MapFS {
	m := fstest.MapFS{}
	for _, f := range w.files {
		c := "INSERT INTO log (x) VALUES ('" + f.name + "');\n"
		if !f.single {
			c += "INSERT INTO log (x) VALUES ('" + f.name + "');\n"
		}
		m[f.name] = &fstest.MapFile{Data: []byte(c)}
		if w.undo {
			m[f.undo()] = &fstest.MapFile{Data: []byte("INSERT INTO log (x) VALUES ('" + f.undo() + "');\n")}
		}
	}
	return m
}

const (
	cOK = iota
	cLT
	cErr
)

var cNames = [...]string{"ok", "timeout", "error"}

// choices replays a prefix of decisions and takes the first alternative afterwards.
type choices struct {
	prefix []int
	taken  []int
	width  []int
}

func (c *choices) pick(n int) int {
	i := len(c.taken)
	v := 0
	if i < len(c.prefix) {
		v = c.prefix[i]
	}
	c.taken = append(c.taken, v)
	c.width = append(c.width, n)
	return v
}

// next returns the prefix of the next unexplored path, or nil.
func (c *choices) next() []int {
	for i := len(c.taken) - 1; i >= 0; i-- {
		if c.taken[i]+1 < c.width[i] {
			return append(append([]int(nil), c.taken[:i]...), c.taken[i]+1)
		}
	}
	return nil
}

// model is the specification: it produces the events for a sequence of outcomes.
func (w retryWorld) model(pick func(n int) int) (events []string, applied []string, fails bool) {
	mf := make([]migFile, len(w.files))
	single := map[string]bool{}
	for i, f := range w.files {
		mf[i] = f.migFile
		single[f.name] = f.single
	}
	d := migDir{files: mf, st: make([]int, len(mf))}
	for i := range d.st {
		d.st[i] = fGood
	}
	for _, g := range groups(w.dialect, d.selectFiles(nil)) {
		tx := !g[0].nontx(w.dialect)
		for attempt := 1; ; attempt++ {
			out := cOK
			for _, f := range g {
				e := "exec " + f.name
				if tx {
					e += " in tx"
				}
				events = append(events, e)
				if out = pick(3); out != cOK {
					break
				}
			}
			if out == cOK && tx {
				events = append(events, "commit")
				out = pick(3)
			}
			if out == cOK {
				for _, f := range g {
					applied = append(applied, f.name)
				}
				break
			}
			retryable := w.dialect != ddl.DialectSQLite && (tx || single[g[0].name])
			if out == cLT && retryable && attempt < w.attempts {
				continue
			}
			if !tx && w.undo {
				events = append(events, "exec "+g[0].undo())
				pick(2)
			}
			return events, applied, true
		}
	}
	return events, applied, false
}

func (w retryWorld) wantTimeout() string {
	d := w.timeout
	if d == 0 {
		d = time.Second
	}
	if w.dialect == ddl.DialectMySQL {
		return fmt.Sprint(int64((d + time.Second - 1) / time.Second))
	}
	return fmt.Sprint(d.Milliseconds())
}

func runC03(r *core.Runner) {
	kinds := []retryFile{
		{migFile{"%d.sql", false}, false},
		{migFile{"%d.sql", false}, true},
		{migFile{"%d.tx.sql", false}, false},
		{migFile{"%d.txoff.sql", false}, false},
		{migFile{"%d.txoff.sql", false}, true},
		{migFile{"repeatable/%d.sql", true}, true},
	}
	var dirs [][]retryFile
	var rec func(n int, cur []retryFile)
	rec = func(n int, cur []retryFile) {
		if len(cur) > 0 {
			dirs = append(dirs, append([]retryFile(nil), cur...))
		}
		if len(cur) == n {
			return
		}
		for _, k := range kinds {
			k.name = fmt.Sprintf(k.name, len(cur)+1)
			rec(n, append(cur, k))
		}
	}
	rec(3, nil)
	dialects := []string{ddl.DialectPostgres, ddl.DialectMySQL, ddl.DialectSQLServer, ddl.DialectSQLite}
	initial := map[string][]string{
		ddl.DialectPostgres:  {"0", "5s", "1min", "1000", "250ms"},
		ddl.DialectMySQL:     {"31536000", "1", "50"},
		ddl.DialectSQLServer: {"-1", "1000", "0"},
		ddl.DialectSQLite:    {""},
	}
	for _, dialect := range dialects {
		for _, files := range dirs {
			for _, undo := range []bool{true, false} {
				for attempts := 1; attempts <= 3; attempts++ {
					if dialect == ddl.DialectSQLite && attempts > 1 || len(files) == 3 && (attempts == 3 || !r.Thorough() && (attempts != 2 || !undo)) {
						continue
					}
					w := retryWorld{dialect: dialect, files: files, undo: undo, attempts: attempts, initial: initial[dialect][0]}
					exploreRetry(r, w)
				}
			}
			// Session settings: every initial value and timeout, ok and failing runs.
			if len(files) == 1 {
				for _, init := range initial[dialect] {
					for _, to := range []time.Duration{0, 300 * time.Millisecond, 1500 * time.Millisecond, 5 * time.Second, 60 * time.Second} {
						for _, skip := range []bool{false, true} {
							exploreRetry(r, retryWorld{dialect: dialect, files: files, undo: true, attempts: 2, initial: init, timeout: to, skip: skip})
						}
					}
				}
			}
		}
	}
	// Long chains of retries.
	for _, dialect := range dialects[:3] {
		for _, attempts := range []int{10, 40, 70} {
			w := retryWorld{dialect: dialect, files: []retryFile{{migFile{"1.tx.sql", false}, false}}, attempts: attempts, initial: initial[dialect][0]}
			for last := 0; last < 3; last++ {
				for _, n := range []int{attempts - 1, attempts} {
					if n == attempts && last > 0 {
						continue
					}
					var p []int
					for i := 0; i < n; i++ {
						p = append(p, cLT)
					}
					if n < attempts {
						p = append(p, last)
					}
					r.Go(fmt.Sprintf("chain %s n=%d last=%s", w.key(), n, cNames[last]), func(t *core.T) {
						runRetry(t, w, p, time.Nanosecond, time.Nanosecond, nil)
					})
				}
			}
		}
	}
	// Real delays.
	for _, dialect := range dialects[:3] {
		for _, dl := range [][2]time.Duration{{20 * time.Millisecond, 60 * time.Millisecond}, {600 * time.Millisecond, 700 * time.Millisecond}, {time.Millisecond, time.Hour}} {
			w := retryWorld{dialect: dialect, files: []retryFile{{migFile{"1.tx.sql", false}, false}}, attempts: 4, initial: initial[dialect][0]}
			r.Go(fmt.Sprintf("delay %s base=%s max=%s", dialect, dl[0], dl[1]), func(t *core.T) {
				runRetry(t, w, []int{cLT, cLT, cOK, cLT, cOK, cOK}, dl[0], dl[1], nil)
			})
		}
	}
	// Cancelled runs put the session setting back.
	for _, dialect := range dialects[:3] {
		for k := 0; k < 14; k++ {
			w := retryWorld{dialect: dialect, files: []retryFile{{migFile{"1.txoff.sql", false}, false}, {migFile{"2.txoff.sql", false}, true}}, attempts: 2, initial: initial[dialect][len(initial[dialect])-1]}
			r.Go(fmt.Sprintf("cancel %s op=%d", dialect, k), func(t *core.T) {
				runRetry(t, w, nil, time.Nanosecond, time.Nanosecond, &k)
			})
		}
	}
	r.Wait()
	// The other Postgres driver the tool can be built with.
	ddlpgx.Register()
	usePgx = true
	for _, files := range dirs {
		if len(files) <= 2 {
			exploreRetry(r, retryWorld{dialect: ddl.DialectPostgres, files: files, undo: true, attempts: 2, initial: "2s"})
		}
	}
	r.Wait()
	ddlpostgres.Register()
	usePgx = false
}

// usePgx says whether Postgres errors are those of pgx.
var usePgx bool

func exploreRetry(r *core.Runner, w retryWorld) {
	r.Go(w.key(), func(t *core.T) {
		var prefix []int
		for {
			prefix = runRetry(t, w, prefix, time.Nanosecond, time.Nanosecond, nil)
			if prefix == nil || t.R.Expired() || t.Failed() {
				return
			}
		}
	})
}

var reRetryIn = regexp.MustCompile(`retrying in (\S+)`)

// runRetry executes one path and returns the prefix of the next one.
func runRetry(t *core.T, w retryWorld, prefix []int, base, max time.Duration, cancelAt *int) []int {
	s := newDialectServer(w.dialect, w.initial)
	defer s.Close()
	s.MustExec(logDDL)
	fsys := w.fs()
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	names := map[string]string{}
	for n, f := range fsys {
		names[string(f.Data)] = n
	}
	ch := &choices{prefix: prefix}
	var events []string
	var when []time.Time
	var injected error
	aborted := map[int]bool{}
	badSession := ""
	s.Err = func(op faultdb.Op) error { return injected }
	s.Hook = func(op faultdb.Op) faultdb.Mode {
		if cancelAt != nil && op.Seq == *cancelAt {
			cancel()
		}
		if op.Kind == "rollback" || op.Kind == "begin" {
			aborted[op.Conn] = false
			return faultdb.OK
		}
		if op.InTx && aborted[op.Conn] && w.dialect == ddl.DialectPostgres && op.Kind != "next" {
			injected = syntaxError(w.dialect, "current transaction is aborted, commands ignored until end of transaction block")
			return faultdb.ErrBefore
		}
		n := 0
		if op.Kind == "commit" {
			events = append(events, "commit")
			n = 3
		} else if name, ok := names[op.SQL]; ok && op.Kind == "exec" {
			e := "exec " + name
			if op.InTx {
				e += " in tx"
			}
			events = append(events, e)
			n = 3
			if strings.HasSuffix(name, ".undo.sql") {
				n = 2
			}
			if v := s.value(op.Conn); w.dialect != ddl.DialectSQLite && v != w.wantTimeout() && !(w.dialect == ddl.DialectPostgres && w.initial == v && v == "1000") {
				badSession = fmt.Sprintf("%s executed with lock timeout %q, want %q", name, v, w.wantTimeout())
			}
		}
		if n == 0 || cancelAt != nil {
			return faultdb.OK
		}
		when = append(when, time.Now())
		c := ch.pick(n)
		if c == cOK {
			return faultdb.OK
		}
		if op.InTx {
			aborted[op.Conn] = true
		}
		injected = otherError(w.dialect)
		if c == cLT && n == 3 {
			injected = lockTimeout(w.dialect)
		}
		if op.Kind == "commit" {
			return faultdb.ErrBefore
		}
		// The statement fails; what it did is undone by the server.
		return faultdb.ErrBefore
	}
	s.Record()
	db := s.DB()
	defer db.Close()
	var out syncBuf
	err := (&ddl.MigrateCmd{DB: db, Dialect: w.dialect, DirFS: fsys, Stderr: &out, Ctx: ctx, MaxAttempts: w.attempts, BaseDelay: base, MaxDelay: max, LockTimeout: w.timeout, SkipHistoryTable: w.skip}).Run()
	t.Step(1)
	t.Trace(1)
	var path []string
	for i, c := range ch.taken {
		n := cNames[c]
		if ch.width[i] == 2 && c == 1 {
			n = "undo fails"
		}
		path = append(path, n)
	}
	t.State(w.key(), strings.Join(path, ","))
	what := fmt.Sprintf("%s outcomes %v", w.key(), path)
	if badSession != "" {
		t.Fail("session", "%s: %s", what, badSession)
	}
	s.mu.Lock()
	for c, v := range s.session {
		if v != w.initial {
			t.Fail("session-restore", "%s: connection %d is left with lock timeout %q instead of %q (settings: %v)", what, c, v, w.initial, s.sets)
		}
	}
	s.mu.Unlock()
	if cancelAt != nil {
		t.Outcome("cancelled")
		return nil
	}
	// Replay the same decisions on the model.
	i := 0
	overrun := false
	mev, applied, fails := w.model(func(n int) int {
		if i >= len(ch.taken) || ch.width[i] != n {
			overrun = true
			return cOK
		}
		i++
		return ch.taken[i-1]
	})
	if len(ch.taken) > 0 {
		t.Nontrivial()
	}
	if overrun || i != len(ch.taken) || strings.Join(mev, ";") != strings.Join(events, ";") {
		t.Fail("events", "%s:\nserver saw %v\nexpected   %v", what, events, mev)
		return nil
	}
	if (err != nil) != fails {
		t.Fail("error", "%s: migrate returned %s, expected failure=%v", what, errStr(err), fails)
	}
	s.Server.Reset()
	h := readHist(s.Server, "sqddl_history")
	n := 0
	for _, row := range h {
		if row.success {
			n++
		}
	}
	if w.skip {
		if len(h) > 0 {
			t.Fail("history", "%s: history written with SkipHistoryTable: %s", what, histKey(h))
		}
	} else {
		for _, f := range applied {
			if !h[f].success {
				t.Fail("history", "%s: %s applied but history says %+v", what, f, h[f])
			}
		}
		if n != len(applied) {
			t.Fail("history", "%s: applied %v but history is %s", what, applied, histKey(h))
		}
	}
	if base > time.Microsecond {
		for i := 1; i < len(when); i++ {
			if ch.taken[i-1] == cLT {
				gap := when[i].Sub(when[i-1])
				if gap < base {
					t.Fail("delay", "%s: retried after %s, base delay is %s", what, gap, base)
				}
				if max < time.Minute && gap > max+5*time.Second {
					t.Fail("delay", "%s: retried after %s, maximum delay is %s", what, gap, max)
				}
			}
		}
		for _, m := range reRetryIn.FindAllStringSubmatch(out.String(), -1) {
			if d, err := time.ParseDuration(m[1]); err == nil && (d < base || d > max) {
				t.Fail("delay", "%s: announced delay %s, base %s, max %s", what, d, base, max)
			}
		}
	}
	t.Outcome(fmt.Sprintf("%s applied=%d fails=%v", w.dialect, len(applied), fails))
	if len(path) > 2 {
		t.Sample(map[string]any{"world": w.key(), "outcomes": path, "events": events, "error": errStr(err), "session_settings": s.sets})
	}
	return ch.next()
}
