// mc runs the exploration of one property: mc PROPERTY TIER. The exploration itself runs in a
// child process, so that a crash of the code under test (stack overflow, out of memory,
// fatal runtime error) is observed, attributed to a case and reported.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"syscall"
	"time"

	"verif/mc/kit"
	"verif/mc/props"
)

func main() {
	if len(os.Args) != 3 {
		fmt.Fprintln(os.Stderr, "usage: mc PROPERTY quick|thorough")
		os.Exit(2)
	}
	prop, tier := os.Args[1], os.Args[2]
	if os.Getenv("MC_CHILD") != "" {
		child(prop, tier)
		return
	}
	os.Exit(supervise(prop, tier))
}

func dir() string {
	if d := os.Getenv("MC_DIR"); d != "" {
		return d
	}
	return "/verif"
}

func limit(tier string) time.Duration {
	if tier == "thorough" {
		return 600 * time.Second
	}
	return 240 * time.Second
}

func child(prop, tier string) {
	if os.Getenv("MC_RACE") == "" {
		lim := syscall.Rlimit{Cur: 20 << 30, Max: 20 << 30}
		syscall.Setrlimit(syscall.RLIMIT_AS, &lim)
	}
	fn, ok := props.All[prop]
	if !ok {
		fmt.Fprintln(os.Stderr, "no check for", prop)
		os.Exit(2)
	}
	c := kit.New(prop, tier, dir(), limit(tier))
	fn(c)
	c.Finish()
}

type tail struct {
	w   io.Writer
	buf bytes.Buffer
}

func (t *tail) Write(b []byte) (int, error) {
	if t.buf.Len() < 1<<20 {
		t.buf.Write(b)
	}
	return t.w.Write(b)
}

// run executes the child; crashed is true when it ended without a verdict.
func run(prop, tier string, env []string, quiet bool) (code int, crashed bool, out string) {
	cmd := exec.Command(os.Args[0], prop, tier)
	cmd.Env = append(append(os.Environ(), "MC_CHILD=1", "GOTRACEBACK=single"), env...)
	var so, se io.Writer = os.Stdout, os.Stderr
	if quiet {
		so, se = io.Discard, io.Discard
	}
	stdout, stderr := &tail{w: so}, &tail{w: io.Discard}
	_ = se
	cmd.Stdout, cmd.Stderr = stdout, stderr
	err := cmd.Run()
	if err == nil {
		return 0, false, ""
	}
	ee, ok := err.(*exec.ExitError)
	if !ok {
		fmt.Fprintln(os.Stderr, "cannot run the exploration:", err)
		return 2, false, ""
	}
	if ee.ExitCode() == 1 && strings.Contains(stdout.buf.String(), "VIOLATION property=") {
		return 1, false, ""
	}
	if ee.ExitCode() == 2 && strings.Contains(stderr.buf.String(), "no check for") {
		fmt.Fprint(os.Stderr, stderr.buf.String())
		return 2, false, ""
	}
	s := stderr.buf.String()
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return 0, true, fmt.Sprintf("the process ended with %v\n%s", ee, s)
}

func supervise(prop, tier string) int {
	code, crashed, out := run(prop, tier, nil, false)
	if !crashed {
		return code
	}
	fmt.Printf("the exploration of %s crashed; locating the case\n", prop)
	j := filepath.Join(os.TempDir(), fmt.Sprintf("mc-journal-%d", os.Getpid()))
	defer os.Remove(j)
	_, again, out2 := run(prop, tier, []string{"MC_JOURNAL=" + j}, true)
	if !again {
		// one case at a time does not crash: either memory pressure of the parallel run or
		// a crash that needs several goroutines; only a Go fatal error inside the library counts
		if strings.Contains(out, "fatal error: ") && strings.Contains(out, "codeallergy/value.") {
			return violation(prop, tier, "", -1, out)
		}
		fmt.Printf("the crash did not happen again and does not point to the library, ignored:\n%s\n", out)
		return 0
	}
	var label string
	index := -1
	if b, err := os.ReadFile(j); err == nil && len(b) > 60 {
		label = strings.TrimSpace(string(b[:60]))
		fmt.Sscan(string(b[60:]), &index)
	}
	return violation(prop, tier, label, index, out2)
}

func violation(prop, tier, label string, index int, out string) int {
	path := os.Getenv("MC_REPLAY")
	if path == "" {
		path = filepath.Join(dir(), "replay", prop+".json")
		os.MkdirAll(filepath.Dir(path), 0755)
		r := kit.Replay{Property: prop, Tier: tier, Label: label, Index: index, Key: "crash", Detail: out,
			HowTo: "cd /verif && ./check.sh replay " + path}
		b, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(path, append(b, '\n'), 0644)
	}
	fmt.Println(out)
	fmt.Printf("crash in exploration %q case %d\n", label, index)
	fmt.Printf("VIOLATION property=%s replay=%s\n", prop, path)
	ev := map[string]any{"property": prop, "tier": tier, "seed": 1, "level": "model_checking", "violations": 1,
		"assumptions": []string{}, "wall_s": 0,
		"coverage": map[string]any{"states": 0, "transitions": 0, "traces_validated_against_impl": 0, "samples": []string{"crash: " + label}}}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(dir(), "evidence"), 0755)
	os.WriteFile(filepath.Join(dir(), "evidence", prop+".json"), append(b, '\n'), 0644)
	return 1
}
