// Package kit is the exploration driver shared by all checks: it enumerates case
// spaces in parallel, counts what was covered, reports violations as replayable
// artefacts and writes the evidence file.
package kit

import (
	"bufio"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Replay is the artefact written for every violation.
type Replay struct {
	Property string `json:"property"`
	Tier     string `json:"tier"`
	Label    string `json:"label"` // exploration the case belongs to
	Index    int    `json:"index"` // case number inside that exploration
	Key      string `json:"key"`   // stable identification of the failing history or input
	Detail   string `json:"detail"`
	HowTo    string `json:"how_to_replay"`
}

type shard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

// Set counts distinct 64-bit hashes.
type Set struct {
	sh [64]shard
}

func (s *Set) Add(h uint64) bool {
	sh := &s.sh[h>>58]
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if sh.m == nil {
		sh.m = map[uint64]struct{}{}
	}
	if _, ok := sh.m[h]; ok {
		return false
	}
	sh.m[h] = struct{}{}
	return true
}

func (s *Set) Len() int64 {
	var n int64
	for i := range s.sh {
		s.sh[i].mu.Lock()
		n += int64(len(s.sh[i].m))
		s.sh[i].mu.Unlock()
	}
	return n
}

// Hash is FNV-1a with a final mix.
func Hash(b string) uint64 {
	h := uint64(14695981039346656037)
	for i := 0; i < len(b); i++ {
		h ^= uint64(b[i])
		h *= 1099511628211
	}
	h ^= h >> 33
	h *= 0xff51afd7ed558ccd
	h ^= h >> 33
	h *= 0xc4ceb9fe1a85ec53
	h ^= h >> 33
	return h
}

// Ctx is one run of one check.
type Ctx struct {
	Prop  string
	Tier  string
	Seed  int64
	Dir   string // /verif
	start time.Time
	limit time.Duration

	// HangLimit is how long a case can take before it counts as hanging, if not zero.
	HangLimit time.Duration

	stateSet   Set
	outcomeSet Set
	states     atomic.Int64 // states distinct by construction
	trans      atomic.Int64
	traces     atomic.Int64

	mu        sync.Mutex
	samples   []string
	steps     []string
	bounds    map[string]any
	assume    []string
	capped    []string
	known     map[string]string
	knownHit  map[string]bool
	only      *Replay
	journal   *os.File
	failed    bool
	procs     int
	evidence  string
	explLabel map[string]int64
}

func New(prop, tier, dir string, limit time.Duration) *Ctx {
	c := &Ctx{Prop: prop, Tier: tier, Dir: dir, start: time.Now(), limit: limit,
		bounds: map[string]any{}, known: map[string]string{}, knownHit: map[string]bool{},
		explLabel: map[string]int64{}}
	fmt.Sscan(os.Getenv("VERIF_SEED"), &c.Seed)
	c.procs = runtime.NumCPU()
	if c.procs > 8 {
		c.procs = 8
	}
	c.evidence = filepath.Join(dir, "evidence", prop+".json")
	if j := os.Getenv("MC_JOURNAL"); j != "" {
		c.journal, _ = os.OpenFile(j, os.O_CREATE|os.O_WRONLY|os.O_TRUNC, 0644)
		c.procs = 1
	}
	if r := os.Getenv("MC_REPLAY"); r != "" {
		b, err := os.ReadFile(r)
		if err != nil {
			panic(err)
		}
		c.only = &Replay{}
		if err := json.Unmarshal(b, c.only); err != nil {
			panic(err)
		}
		c.procs = 1
	}
	c.loadKnown()
	return c
}

// loadKnown reads /verif/known-findings.txt: lines "open: property=<id> key=<key> :: text".
func (c *Ctx) loadKnown() {
	f, err := os.Open(filepath.Join(c.Dir, "known-findings.txt"))
	if err != nil {
		return
	}
	defer f.Close()
	sc := bufio.NewScanner(f)
	sc.Buffer(make([]byte, 1<<20), 1<<20)
	for sc.Scan() {
		l := strings.TrimSpace(sc.Text())
		p := "open: property=" + c.Prop + " key="
		if strings.HasPrefix(l, p) {
			rest := l[len(p):]
			key, text, _ := strings.Cut(rest, " :: ")
			c.known[strings.TrimSpace(key)] = text
		}
	}
}

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func (c *Ctx) Pick(q, t int) int {
	if c.Thorough() {
		return t
	}
	return q
}

func (c *Ctx) Expired() bool { return time.Since(c.start) > c.limit }

func (c *Ctx) State(canon string)    { c.stateSet.Add(Hash(canon)) }
func (c *Ctx) StateHash(h uint64)    { c.stateSet.Add(h) }
func (c *Ctx) AddStates(n int64)     { c.states.Add(n) }
func (c *Ctx) Outcome(o string)      { c.outcomeSet.Add(Hash(o)) }
func (c *Ctx) Trans(n int64)         { c.trans.Add(n) }
func (c *Ctx) Traces(n int64)        { c.traces.Add(n) }
func (c *Ctx) Bound(k string, v any) { c.mu.Lock(); c.bounds[k] = v; c.mu.Unlock() }
func (c *Ctx) Assume(s string)       { c.mu.Lock(); c.assume = append(c.assume, s); c.mu.Unlock() }
func (c *Ctx) Capped(s string)       { c.mu.Lock(); c.capped = append(c.capped, s); c.mu.Unlock() }
func (c *Ctx) Sample(format string, a ...any) {
	c.mu.Lock()
	if len(c.samples) < 12 {
		s := fmt.Sprintf(format, a...)
		if len(s) > 400 {
			s = s[:400] + "..."
		}
		c.samples = append(c.samples, s)
	}
	c.mu.Unlock()
}

// W is one worker of a parallel exploration.
type W struct {
	C     *Ctx
	Label string
	Index int
	desc  func() string
	since atomic.Int64
	trans int64
	trace int64
	state int64
}

// Step announces what is executed next; the text is only built when needed.
func (w *W) Step(desc func() string) {
	w.desc = desc
	w.trans++
}

// Trace counts one complete execution compared with the reference model.
func (w *W) Trace() { w.trace++ }

// NewState counts a state that is distinct by construction.
func (w *W) NewState() { w.state++ }

func (w *W) Desc() string {
	if w.desc == nil {
		return "(start of case)"
	}
	return w.desc()
}

type abort struct{}

// Fail reports a violation found at the current step.
func (w *W) Fail(format string, a ...any) {
	w.FailKey("", format, a...)
}

// FailKey reports a violation identified by key, unless key is a listed known finding.
func (w *W) FailKey(key string, format string, a ...any) {
	msg := fmt.Sprintf(format, a...)
	d := w.Desc()
	if key == "" {
		key = d
	}
	w.C.fail(w.Label, w.Index, key, "at: "+d+"\n"+msg)
}

func (c *Ctx) fail(label string, index int, key, detail string) {
	if len(key) > 300 {
		key = key[:300]
	}
	c.mu.Lock()
	if text, ok := c.known[key]; ok {
		if !c.knownHit[key] {
			c.knownHit[key] = true
			fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop, text)
		}
		c.mu.Unlock()
		return
	}
	if c.failed {
		c.mu.Unlock()
		select {} // another worker is already reporting
	}
	c.failed = true
	c.mu.Unlock()
	c.report(label, index, key, detail)
}

func (c *Ctx) report(label string, index int, key, detail string) {
	dir := filepath.Join(c.Dir, "replay")
	os.MkdirAll(dir, 0755)
	path := filepath.Join(dir, c.Prop+".json")
	if len(detail) > 20000 {
		detail = detail[:20000] + "..."
	}
	r := Replay{Property: c.Prop, Tier: c.Tier, Label: label, Index: index, Key: key, Detail: detail,
		HowTo: "cd /verif && ./check.sh replay " + path}
	if c.only == nil {
		b, _ := json.MarshalIndent(r, "", " ")
		os.WriteFile(path, append(b, '\n'), 0644)
	} else {
		path = os.Getenv("MC_REPLAY")
	}
	fmt.Printf("%s\n", detail)
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop, path)
	c.writeEvidence(1)
	os.Exit(1)
}

// Par runs fn for every case 0..n-1 of the exploration named label, on all cores.
// It returns false if the time limit stopped it.
func (c *Ctx) Par(label string, n int, fn func(w *W, i int)) bool {
	return c.par(label, n, c.procs, false, fn)
}

// Seq is Par on a single goroutine (for cases that touch process-wide settings).
func (c *Ctx) Seq(label string, n int, fn func(w *W, i int)) bool {
	return c.par(label, n, 1, true, fn)
}

const hangLimit = 240 * time.Second

func (c *Ctx) par(label string, n int, procs int, seq bool, fn func(w *W, i int)) bool {
	if c.only != nil {
		if c.only.Label != label || c.only.Index < 0 || c.only.Index >= n {
			return true
		}
	}
	var next atomic.Int64
	var capped atomic.Bool
	var wg sync.WaitGroup
	ws := make([]*W, procs)
	for p := 0; p < procs; p++ {
		w := &W{C: c, Label: label}
		ws[p] = w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				if c.only != nil && (i > c.only.Index || i < c.only.Index && !seq) {
					continue
				}
				if c.Expired() {
					capped.Store(true)
					return
				}
				if c.journal != nil {
					c.journal.WriteAt([]byte(fmt.Sprintf("%-60s %12d\n", label, i)), 0)
				}
				w.Index = i
				w.desc = nil
				w.since.Store(time.Now().UnixNano())
				c.one(w, i, fn)
				w.since.Store(0)
			}
		}()
	}
	stop := make(chan struct{})
	go func() {
		t := time.NewTicker(2 * time.Second)
		defer t.Stop()
		for {
			select {
			case <-stop:
				return
			case <-t.C:
				for _, w := range ws {
					s := w.since.Load()
					if s != 0 && time.Since(time.Unix(0, s)) > c.hang() {
						c.fail(label, w.Index, "hang "+label, fmt.Sprintf("case %d of %s did not finish within %v (last step: %s)", w.Index, label, c.hang(), w.Desc()))
					}
				}
			}
		}
	}()
	wg.Wait()
	close(stop)
	for _, w := range ws {
		c.trans.Add(w.trans)
		c.traces.Add(w.trace)
		c.states.Add(w.state)
	}
	done := next.Load()
	if done > int64(n) {
		done = int64(n)
	}
	c.mu.Lock()
	c.explLabel[label] += done
	c.mu.Unlock()
	if os.Getenv("MC_VERBOSE") != "" {
		fmt.Printf("%8.2fs %s: %d cases\n", time.Since(c.start).Seconds(), label, done)
	}
	if capped.Load() {
		c.Capped(fmt.Sprintf("%s: stopped by the time limit after about %d of %d cases", label, done, n))
		return false
	}
	return true
}

func (c *Ctx) hang() time.Duration {
	if c.HangLimit != 0 {
		return c.HangLimit
	}
	if c.Thorough() {
		return 10 * hangLimit
	}
	return hangLimit
}

func (c *Ctx) one(w *W, i int, fn func(w *W, i int)) {
	defer func() {
		if r := recover(); r != nil {
			if _, ok := r.(abort); ok {
				return
			}
			st := string(debug.Stack())
			if k := strings.Index(st, "panic("); k >= 0 {
				st = st[k:]
			}
			if len(st) > 3000 {
				st = st[:3000]
			}
			c.fail(w.Label, i, "panic: "+w.Desc(), fmt.Sprintf("at: %s\npanic: %v\n%s", w.Desc(), r, st))
		}
	}()
	fn(w, i)
	if i == 0 && w.desc != nil && c.only == nil {
		c.sampleStep(w)
	}
}

// sampleStep records the last step of the first case of an exploration as a sample.
func (c *Ctx) sampleStep(w *W) {
	defer func() { recover() }()
	s := w.Desc()
	if len(s) > 300 {
		s = s[:300] + "..."
	}
	s = strings.ToValidUTF8(w.Label+": "+s, "?")
	c.mu.Lock()
	if len(c.steps) < 24 {
		c.steps = append(c.steps, s)
	}
	c.mu.Unlock()
}

// Known reports the known findings that did not show up in this run (they must not be silent lies).
func (c *Ctx) writeEvidence(violations int) {
	if c.only != nil {
		return
	}
	level := "model_checking"
	samples := append(append([]string{}, c.samples...), c.steps...)
	cov := map[string]any{
		"states":                        c.stateSet.Len() + c.states.Load(),
		"transitions":                   c.trans.Load(),
		"traces_validated_against_impl": c.traces.Load(),
		"samples":                       samples,
		"exhaustive":                    len(c.capped) == 0 && violations == 0,
		"cases_per_exploration":         c.explLabel,
		"bounds":                        c.bounds,
	}
	if n := c.outcomeSet.Len(); n > 0 {
		cov["distinct_observed_outcomes"] = n
	}
	if len(c.capped) > 0 {
		sort.Strings(c.capped)
		cov["caps_hit"] = c.capped
	}
	if len(c.knownHit) > 0 {
		var ks []string
		for k := range c.knownHit {
			ks = append(ks, k)
		}
		sort.Strings(ks)
		cov["known_findings_seen"] = ks
	}
	e := map[string]any{
		"property": c.Prop, "tier": c.Tier, "seed": c.Seed, "level": level,
		"coverage": cov, "assumptions": c.assume,
		"wall_s": time.Since(c.start).Seconds(), "violations": violations,
	}
	if c.assume == nil {
		e["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(e, "", " ")
	if err != nil {
		panic(err)
	}
	os.MkdirAll(filepath.Dir(c.evidence), 0755)
	os.WriteFile(c.evidence, append(b, '\n'), 0644)
}

// Finish writes the evidence of a run without violation.
func (c *Ctx) Finish() {
	c.writeEvidence(0)
	fmt.Printf("OK property=%s tier=%s states=%d transitions=%d traces=%d wall=%.1fs\n", c.Prop, c.Tier,
		c.stateSet.Len()+c.states.Load(), c.trans.Load(), c.traces.Load(), time.Since(c.start).Seconds())
	for _, s := range c.capped {
		fmt.Println("capped:", s)
	}
}

// Map is a concurrent string map that remembers the first owner of a key.
type Map struct {
	mu sync.Mutex
	m  map[string]string
}

// Claim stores id under key unless the key is taken and returns the owner.
func (m *Map) Claim(key, id string) string {
	m.mu.Lock()
	defer m.mu.Unlock()
	if m.m == nil {
		m.m = map[string]string{}
	}
	if o, ok := m.m[key]; ok {
		return o
	}
	m.m[key] = id
	return id
}
