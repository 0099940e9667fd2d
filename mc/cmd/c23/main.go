//go:build c23

// c23 explores the schedules of concurrent scenarios on the instrumented package:
// c23 TIER runs everything through child processes, c23 child GROUP TIER runs one group.
package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"

	"github.com/codeallergy/value"
	"verif/mc/kit"
	"verif/mc/ref"
	"verif/mc/sched"
)

// op is what one thread does with the shared state.
type op struct {
	name string
	run  func(s any) any
}

// scenario is a set of threads over shared state built anew for every execution.
type scenario struct {
	name    string
	setup   func() any
	ops     []op
	bound   int                // preemptions
	observe func(s any) string // what the shared state contains
}

// uniq is a result that no other call may return, with what has to be as always.
type uniq struct {
	id   string
	rest any
}

type report struct {
	Scenarios  int
	Executions int64
	Points     int64
	States     int64
	MaxPoints  int32
	Outcomes   int
	Capped     string
	Samples    []string
	Violation  string
}

func main() {
	if len(os.Args) == 4 && os.Args[1] == "child" {
		child(os.Args[2], os.Args[3])
		return
	}
	tier := os.Args[1]
	dir := os.Getenv("MC_DIR")
	limit := 600 * time.Second
	if tier == "thorough" {
		limit = 700 * time.Second
	}
	c := kit.New("C23", tier, dir, limit)
	c.HangLimit = time.Hour // hanging threads are found in the child processes
	gs := groups(tier == "thorough")
	names := []string{}
	for _, g := range gs {
		names = append(names, g.name)
	}
	c.Bound("groups", names)
	c.Bound("preemptions", "1 for all pairs of calls and for three threads, 2 for the groups that say so, 0 for wide and long shared values")
	c.Bound("scheduling_points", "before every statement of the package and every synchronization operation")
	c.Assume("code outside of the package (standard library, decimal, nacl) runs without scheduling points; its accesses are still checked for races")
	c.Assume("sequential consistency: a data race is itself reported as a violation")
	start := time.Now()
	c.Par("groups", len(gs), func(w *kit.W, i int) {
		g := gs[i]
		w.Step(func() string { return "scenarios of group " + g.name })
		cmd := exec.Command("/proc/self/exe", "child", g.name, tier)
		var out, errb bytes.Buffer
		cmd.Stdout, cmd.Stderr = &out, &errb
		cmd.Env = append(os.Environ(), "GOMAXPROCS=1", "GORACE=halt_on_error=0 exitcode=0", fmt.Sprintf("C23_DEADLINE=%d", start.Add(limit-20*time.Second).Unix()))
		began := time.Now()
		err := cmd.Run()
		if os.Getenv("MC_VERBOSE") != "" {
			fmt.Printf("%8.2fs group %s\n", time.Since(began).Seconds(), g.name)
		}
		var r report
		if json.Unmarshal(out.Bytes(), &r) != nil {
			text := errb.String()
			if len(text) > 6000 {
				text = text[:3000] + "\n...\n" + text[len(text)-3000:]
			}
			if strings.Contains(fmt.Sprint(err), "killed") {
				fmt.Fprintln(os.Stderr, "a child process was killed from outside:", err)
				os.Exit(2)
			}
			w.Fail("the process died: %v\n%s", err, text)
		}
		if r.Violation != "" {
			text := errb.String()
			if len(text) > 6000 {
				text = text[:6000] + "..."
			}
			w.Fail("%s\n%s", r.Violation, text)
		}
		c.AddStates(r.States)
		c.Trans(r.Points)
		c.Traces(r.Executions)
		c.Bound("group "+g.name, fmt.Sprintf("%d scenarios, %d executions, at most %d points each, %d outcomes", r.Scenarios, r.Executions, r.MaxPoints, r.Outcomes))
		if r.Capped != "" {
			c.Capped(r.Capped)
		}
		for _, s := range r.Samples {
			c.Sample("%s", s)
		}
	})
	c.Finish()
}

func child(name, tier string) {
	deadline := time.Unix(1<<40, 0)
	if d, err := strconv.ParseInt(os.Getenv("C23_DEADLINE"), 10, 64); err == nil {
		deadline = time.Unix(d, 0)
	}
	var r report
	emit := func() {
		b, _ := json.Marshal(r)
		os.Stdout.Write(b)
		os.Exit(0)
	}
	for _, g := range groups(tier == "thorough") {
		if g.name != name {
			continue
		}
		outcomes := map[string]bool{}
		for _, sc := range g.scenarios() {
			r.Scenarios++
			for _, warm := range []bool{false, true} {
				if v := explore(sc, warm, &r, deadline, outcomes); v != "" {
					r.Violation = v
					emit()
				}
			}
			if r.Capped != "" {
				break
			}
		}
		r.Outcomes = len(outcomes)
		emit()
	}
	fmt.Fprintln(os.Stderr, "no group", name)
	os.Exit(2)
}

// canon is the text of a result.
func canon(x any) string {
	switch v := x.(type) {
	case nil:
		return "nil"
	case sched.Panic:
		return v.Text
	case string:
		return v
	case error:
		return "error " + v.Error()
	case []byte:
		return fmt.Sprintf("%x", v)
	case value.Value:
		b, err := value.Pack(v)
		return fmt.Sprintf("%s/%x/%v", ref.Observe(v).Canon(), b, err)
	case []value.Value:
		var b strings.Builder
		for _, e := range v {
			b.WriteString(canon(e) + ",")
		}
		return b.String()
	case []any:
		var b strings.Builder
		for _, e := range v {
			b.WriteString(canon(e) + ";")
		}
		return b.String()
	case func() string:
		return v()
	case uniq:
		return canon(v.rest)
	}
	return fmt.Sprintf("%T:%v", x, x)
}

func short(s string) string {
	if len(s) > 1500 {
		return s[:1500] + "..."
	}
	return s
}

// explore runs every schedule of the scenario with at most bound preemptions. Warm: all calls have
// been made once before the threads start.
func explore(sc scenario, warm bool, r *report, deadline time.Time, outcomes map[string]bool) string {
	n := len(sc.ops)
	// every call alone
	want := make([]string, n)
	var before string
	for i, o := range sc.ops {
		value.VerifReset()
		s := sc.setup()
		before = sc.observe(s)
		want[i] = canon(guard(func() any { return o.run(s) }))
		if strings.HasPrefix(want[i], "panic: ") {
			return fmt.Sprintf("scenario %s: %s alone: %s", sc.name, o.name, want[i])
		}
	}
	if len(r.Samples) < 2 {
		r.Samples = append(r.Samples, fmt.Sprintf("%s, up to %d preemptions, alone: %s", sc.name, sc.bound, short(strings.Join(want, " | "))))
	}
	races := sched.RaceErrors()
	var last []sched.Dev
	sched.Watchdog = func() {
		r.Violation = fmt.Sprintf("scenario %s, schedule %v: a thread does not come back to the scheduler (deadlock or endless loop)", sc.name, last)
		b, _ := json.Marshal(r)
		os.Stdout.Write(b)
		os.Exit(0)
	}
	fs := make([]func() any, n)
	run := func(devs []sched.Dev) (sched.Outcome, string) {
		last = devs
		value.VerifReset()
		seen := map[string]bool{}
		twice := func(x any) bool {
			u, ok := x.(uniq)
			if ok && seen[u.id] {
				return true
			}
			seen[u.id] = ok
			return false
		}
		if warm {
			s := sc.setup()
			for _, o := range sc.ops {
				x := guard(func() any { return o.run(s) })
				if twice(x) {
					return sched.Outcome{}, fmt.Sprintf("scenario %s: %s gives what an earlier call gave", sc.name, o.name)
				}
			}
		}
		s := sc.setup()
		for i := range fs {
			o := sc.ops[i]
			fs[i] = func() any { return o.run(s) }
		}
		out := sched.Run(fs, devs)
		r.Executions++
		r.Points += int64(len(out.Steps))
		if int32(len(out.Steps)) > r.MaxPoints {
			r.MaxPoints = int32(len(out.Steps))
		}
		where := func() string {
			var b strings.Builder
			fmt.Fprintf(&b, "scenario %s, schedule:", sc.name)
			for _, d := range devs {
				if int(d.Step) < len(out.Steps) {
					st := out.Steps[d.Step]
					fmt.Fprintf(&b, " [step %d: thread %d stopped before %s, thread %d continues]", d.Step, st.Cur, sched.Where(st.Pos), d.Thread)
				}
			}
			if len(devs) == 0 {
				b.WriteString(" (threads one after another)")
			}
			if warm {
				b.WriteString(" (after each call was made once)")
			}
			return b.String() + "\n"
		}
		if out.Deadlock {
			return out, where() + "deadlock: no thread can run"
		}
		if k := sched.RaceErrors(); k > races {
			return out, where() + "data race (report of the race detector below)"
		}
		key := ""
		for i, x := range out.Results {
			g := canon(guard(func() any { return canon(x) }))
			key += g + "\x00"
			if twice(x) {
				return out, where() + fmt.Sprintf("thread %d (%s) returned what another call returned", i, sc.ops[i].name)
			}
			if g != want[i] {
				return out, where() + fmt.Sprintf("thread %d (%s) returned %s\nalone it returns %s", i, sc.ops[i].name, short(g), short(want[i]))
			}
		}
		outcomes[strconv.FormatUint(kit.Hash(key), 16)] = true
		if g := sc.observe(s); g != before {
			return out, where() + fmt.Sprintf("the shared state changed to %s\nit was %s", short(g), short(before))
		}
		return out, ""
	}
	type node struct {
		devs []sched.Dev
		cost int
	}
	stack := []node{{}}
	for len(stack) > 0 {
		nd := stack[len(stack)-1]
		stack = stack[:len(stack)-1]
		if r.Executions%256 == 0 && time.Now().After(deadline) {
			r.Capped = fmt.Sprintf("stopped by the time limit in scenario %s after %d executions", sc.name, r.Executions)
			return ""
		}
		out, v := run(nd.devs)
		if v != "" {
			return v
		}
		from := int32(0)
		if k := len(nd.devs); k > 0 {
			from = nd.devs[k-1].Step + 1
		}
		r.States += int64(len(out.Steps)) - int64(from)
		if len(nd.devs) >= 60 {
			continue
		}
		for i := from; i < int32(len(out.Steps)); i++ {
			st := &out.Steps[i]
			cost := nd.cost
			if st.Cur >= 0 {
				cost++
			}
			if cost > sc.bound {
				continue
			}
			for t := int8(0); t < sched.MaxThreads; t++ {
				if st.Enabled>>uint(t)&1 != 0 && t != st.Chosen {
					d := make([]sched.Dev, len(nd.devs)+1)
					copy(d, nd.devs)
					d[len(nd.devs)] = sched.Dev{Step: i, Thread: t}
					stack = append(stack, node{d, cost})
				}
			}
		}
	}
	return ""
}

func guard(f func() any) (x any) {
	defer func() {
		if e := recover(); e != nil {
			x = fmt.Sprintf("panic: %v", e)
		}
	}()
	return f()
}
