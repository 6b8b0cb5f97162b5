// Command mc runs one check: mc <property> [-tier quick|thorough] [-replay file].
package main

import (
	"bytes"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"strconv"
	"strings"
	"syscall"
	"time"

	_ "verifmc/checks"
	"verifmc/core"
)

func main() {
	fs := flag.NewFlagSet("mc", flag.ExitOnError)
	tier := fs.String("tier", "", "quick or thorough")
	replay := fs.String("replay", "", "replay file")
	only := fs.String("only", "", "run only the case with this key")
	noKnown := fs.Bool("noknown", false, "do not suppress known findings")
	verif := fs.String("verif", "/verif", "verification directory")
	budget := fs.Duration("budget", 0, "internal deadline")
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc <property> [flags]")
		os.Exit(2)
	}
	prop := os.Args[1]
	fs.Parse(os.Args[2:])
	c := core.Checks[prop]
	if c == nil {
		fmt.Fprintln(os.Stderr, "unknown property", prop)
		os.Exit(2)
	}
	if *tier == "" {
		*tier = os.Getenv("VERIF_TIER")
	}
	if *tier != "thorough" {
		*tier = "quick"
	}
	seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
	o := core.Options{Tier: *tier, Seed: seed, Only: *only, Verif: *verif, NoKnown: *noKnown, Budget: *budget}
	if o.Budget == 0 {
		o.Budget = 400 * time.Second
		if *tier == "thorough" {
			o.Budget = 3 * time.Hour
		}
	}
	o.Evidence = filepath.Join(*verif, "evidence", prop+".json")
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		var v struct{ Key, Tier string }
		if err := json.Unmarshal(b, &v); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		o.Only, o.Tier = v.Key, v.Tier
		o.Evidence = ""
	}
	if os.Getenv("MC_CHILD") == "1" {
		os.Exit(core.Run(c, o))
	}
	// The exploration runs in a child process: a crash of the code under test in one of
	// its own goroutines (which cannot be recovered) is a violation, not an error of
	// the check.
	cmd := exec.Command("/proc/self/exe", os.Args[1:]...)
	cmd.Env = append(os.Environ(), "MC_CHILD=1")
	cmd.Stdout = os.Stdout
	var tail tailBuf
	cmd.Stderr = io.MultiWriter(os.Stderr, &tail)
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	sig := make(chan os.Signal, 1)
	signal.Notify(sig, syscall.SIGTERM, syscall.SIGINT)
	if err := cmd.Start(); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	go func() { <-sig; cmd.Process.Kill(); os.Exit(2) }()
	err := cmd.Wait()
	if err == nil {
		os.Exit(0)
	}
	code := cmd.ProcessState.ExitCode()
	out := tail.String()
	if code == 2 && regexp.MustCompile(`(?m)^(panic: |fatal error: (all goroutines|concurrent map))`).MatchString(out) && strings.Contains(out, "bokwoon95/sqddl") {
		dir := filepath.Join(*verif, "evidence", "replay")
		os.MkdirAll(dir, 0755)
		path := filepath.Join(dir, prop+"-crash.txt")
		os.WriteFile(path, []byte(out), 0644)
		ev := map[string]any{"property": prop, "tier": o.Tier, "seed": o.Seed, "level": c.Level, "wall_s": 0, "violations": 1,
			"coverage": map[string]any{"explanation": "the program under test crashed", "exhaustive": false, "samples": []string{out}}}
		b, _ := json.MarshalIndent(ev, "", " ")
		if o.Evidence != "" {
			os.WriteFile(o.Evidence, b, 0644)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n  the program under test crashed: %s\n", prop, path, out)
		os.Exit(1)
	}
	if code == 0 || code < 0 {
		code = 2
	}
	os.Exit(code)
}

type tailBuf struct{ b bytes.Buffer }

func (t *tailBuf) Write(p []byte) (int, error) {
	if t.b.Len() < 1<<16 {
		t.b.Write(p)
	}
	return len(p), nil
}

func (t *tailBuf) String() string { return t.b.String() }
