// Command mc is the model-checking harness. It is compiled inside hangulize's
// module through a build overlay, so it always exercises the working tree.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Prop is one checkable property.
type Prop struct {
	ID    string
	Level string
	Run   func(*Ctx)
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

// Ctx collects what a run covers.
type Ctx struct {
	Prop    *Prop
	Tier    string
	Seed    int
	Start   time.Time
	Limit   time.Time
	evals   atomic.Int64
	states  atomic.Int64
	trans   atomic.Int64
	traces  atomic.Int64
	expired atomic.Bool

	mu       sync.Mutex
	distinct map[uint64]struct{}
	samples  []any
	viol     []violation
	known    map[string]string // key -> what
	knownHit map[string]bool
	rules    []string
	assume   []string
	extra    map[string]any
	stop     atomic.Bool

	slots []slot
}

type slot struct {
	mu    sync.Mutex
	since time.Time
	what  func() any
	raw   any
}

type violation struct {
	Key  string `json:"key"`
	Kind string `json:"kind"`
	Fail string `json:"fail"`
	Case any    `json:"case"`
	enc  string
}

const workers = 8
const maxDistinct = 4 << 20

var verifDir = envOr("VERIF_DIR", "/verif")
var repoDir = envOr("VERIF_REPO", "/repo")

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

// Quick tells whether this is the quick tier.
func (c *Ctx) Quick() bool { return c.Tier != "thorough" }

// Pick chooses a bound by tier.
func (c *Ctx) Pick(quick, thorough int) int {
	if c.Quick() {
		return quick
	}
	return thorough
}

// Expired tells whether the time budget is used up or enough has been found.
func (c *Ctx) Expired() bool {
	if c.stop.Load() {
		return true
	}
	if time.Now().After(c.Limit) {
		c.expired.Store(true)
		return true
	}
	return false
}

// Rule describes how cases are made.
func (c *Ctx) Rule(s string)         { c.mu.Lock(); c.rules = append(c.rules, s); c.mu.Unlock() }
func (c *Ctx) Assume(s string)       { c.mu.Lock(); c.assume = append(c.assume, s); c.mu.Unlock() }
func (c *Ctx) Extra(k string, v any) { c.mu.Lock(); c.extra[k] = v; c.mu.Unlock() }
func (c *Ctx) States(n int)          { c.states.Add(int64(n)) }
func (c *Ctx) Transitions(n int)     { c.trans.Add(int64(n)) }
func (c *Ctx) TracesValidated(n int) { c.traces.Add(int64(n)) }
func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func (c *Ctx) addDistinct(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	k := h.Sum64()
	c.mu.Lock()
	if len(c.distinct) < maxDistinct {
		c.distinct[k] = struct{}{}
	}
	c.mu.Unlock()
}

// localSet batches distinct outcomes per worker.
type localSet struct {
	c *Ctx
	m map[uint64]struct{}
}

func (l *localSet) add(s string) {
	h := fnv.New64a()
	h.Write([]byte(s))
	l.m[h.Sum64()] = struct{}{}
	if len(l.m) > 4096 {
		l.flush()
	}
}
func (l *localSet) flush() {
	l.c.mu.Lock()
	for k := range l.m {
		if len(l.c.distinct) >= maxDistinct {
			break
		}
		l.c.distinct[k] = struct{}{}
	}
	l.c.mu.Unlock()
	l.m = map[uint64]struct{}{}
}

// Worker runs cases on one goroutine.
type Worker struct {
	c     *Ctx
	id    int
	set   *localSet
	evals int64
}

// Fail records a violation.
func (c *Ctx) Fail(key string, cs any, fail string) {
	b, _ := json.Marshal(cs)
	if key == "" {
		key = string(b)
	}
	c.mu.Lock()
	defer c.mu.Unlock()
	if _, ok := c.known[key]; ok {
		c.knownHit[key] = true
		return
	}
	c.viol = append(c.viol, violation{key, sprintf("%T", cs), fail, cs, string(b)})
	if len(c.viol) >= 200 {
		c.stop.Store(true)
	}
}

// guard turns a panic into a failure text.
func guard(f func() string) (fail string) {
	defer func() {
		if r := recover(); r != nil {
			fail = fmt.Sprintf("panic: %v\n%s", r, trimStack(debug.Stack()))
		}
	}()
	return f()
}

func trimStack(b []byte) string {
	s := string(b)
	lines := strings.Split(s, "\n")
	if len(lines) > 24 {
		lines = lines[:24]
	}
	return strings.Join(lines, "\n")
}

// Run runs one case. check returns an outcome for the statistics ("" for a
// trivial one) and a failure ("" if the property held).
func Run[T any](w *Worker, cs T, check func(T) (string, string)) {
	s := &w.c.slots[w.id]
	s.mu.Lock()
	s.since = time.Now()
	s.raw = cs
	s.mu.Unlock()
	var outcome string
	fail := guard(func() string {
		o, f := check(cs)
		outcome = o
		return f
	})
	s.mu.Lock()
	s.since = time.Time{}
	s.mu.Unlock()
	w.evals++
	if outcome != "" {
		w.set.add(outcome)
	}
	if fail != "" {
		// Believe a failure only if it fails every time.
		for i := 0; i < 3; i++ {
			again := guard(func() string { _, f := check(cs); return f })
			if again == "" {
				fail = "(not on every run) " + fail
				break
			}
		}
		w.c.Fail("", cs, fail)
	}
}

// Par runs fn(w, i) for i in [0,n) on all workers, in chunks, in order of i.
func (c *Ctx) Par(n int, fn func(w *Worker, i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	chunk := n / (workers * 64)
	if chunk < 1 {
		chunk = 1
	}
	for id := 0; id < workers; id++ {
		wg.Add(1)
		go func(id int) {
			defer wg.Done()
			w := &Worker{c: c, id: id, set: &localSet{c, map[uint64]struct{}{}}}
			defer func() {
				w.set.flush()
				c.evals.Add(w.evals)
			}()
			for {
				lo := int(next.Add(int64(chunk))) - chunk
				if lo >= n || c.Expired() {
					return
				}
				for i := lo; i < lo+chunk && i < n; i++ {
					if f := guard(func() string { fn(w, i); return "" }); f != "" {
						c.Fail("", sprintf("part %d of %d", i, n), f)
					}
					if i&15 == 15 && c.Expired() {
						return
					}
				}
			}
		}(id)
	}
	wg.Wait()
}

// watchdog reports a case that never returns or eats all memory.
func (c *Ctx) watchdog() {
	for range time.Tick(250 * time.Millisecond) {
		var ms runtime.MemStats
		limit := 90 * time.Second
		runtime.ReadMemStats(&ms)
		if ms.HeapAlloc > 10<<30 {
			limit = 2 * time.Second
		}
		for i := range c.slots {
			s := &c.slots[i]
			s.mu.Lock()
			since, raw := s.since, s.raw
			s.mu.Unlock()
			if !since.IsZero() && time.Since(since) > limit {
				c.Fail("", raw, fmt.Sprintf("did not return within %s (heap %d MB)", limit, ms.HeapAlloc>>20))
				c.finish()
			}
		}
	}
}

func loadKnown(id string) map[string]string {
	m := map[string]string{}
	b, _ := os.ReadFile(filepath.Join(verifDir, "KNOWN_FINDINGS.txt"))
	pre := "known: property=" + id + " key="
	for _, l := range strings.Split(string(b), "\n") {
		if rest, ok := strings.CutPrefix(l, pre); ok {
			if key, what, ok := strings.Cut(rest, " :: "); ok {
				m[key] = what
			}
		}
	}
	return m
}

var finishOnce sync.Once

func (c *Ctx) finish() {
	finishOnce.Do(c.doFinish)
	select {}
}

func (c *Ctx) doFinish() {
	pprof.StopCPUProfile()
	c.mu.Lock()
	sort.SliceStable(c.viol, func(i, j int) bool {
		if len(c.viol[i].enc) != len(c.viol[j].enc) {
			return len(c.viol[i].enc) < len(c.viol[j].enc)
		}
		return c.viol[i].enc < c.viol[j].enc
	})
	cov := map[string]any{}
	rule := strings.Join(c.rules, " | ")
	samples := c.samples
	if samples == nil {
		samples = []any{}
	}
	cov["samples"] = samples
	if c.Prop.Level == "model_checking" {
		cov["states"] = c.states.Load()
		cov["transitions"] = c.trans.Load()
		cov["traces_validated_against_impl"] = c.traces.Load()
		cov["distinct_outcomes"] = len(c.distinct)
		cov["enumeration"] = rule
	} else {
		cov["evaluations"] = c.evals.Load()
		cov["distinct_nontrivial"] = len(c.distinct)
		cov["rule"] = rule
	}
	cov["exhaustive"] = !c.expired.Load() && !c.stop.Load()
	for k, v := range c.extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": c.Prop.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Prop.Level,
		"coverage": cov, "assumptions": c.assume, "wall_s": time.Since(c.Start).Seconds(),
		"violations": len(c.viol),
	}
	if c.assume == nil {
		ev["assumptions"] = []string{}
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fmt.Println("evidence:", err)
		os.Exit(2)
	}
	dir := filepath.Join(verifDir, "evidence")
	os.MkdirAll(filepath.Join(dir, "replay"), 0o755)
	if err := os.WriteFile(filepath.Join(dir, c.Prop.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Println("evidence:", err)
		os.Exit(2)
	}
	for k := range c.knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.Prop.ID, c.known[k])
	}
	fmt.Printf("%s %s: evaluations=%d states=%d transitions=%d distinct=%d exhaustive=%v wall=%.1fs\n",
		c.Prop.ID, c.Tier, c.evals.Load(), c.states.Load(), c.trans.Load(), len(c.distinct),
		cov["exhaustive"], time.Since(c.Start).Seconds())
	if len(c.viol) > 0 {
		path := filepath.Join(dir, "replay", c.Prop.ID+".json")
		n := len(c.viol)
		if n > 10 {
			n = 10
		}
		rb, _ := json.MarshalIndent(map[string]any{
			"property": c.Prop.ID, "how": "bash /verif/check.sh " + c.Prop.ID + " replay " + path,
			"violations": c.viol[:n], "total": len(c.viol),
		}, "", " ")
		os.WriteFile(path, rb, 0o644)
		for i := 0; i < n && i < 3; i++ {
			f := c.viol[i].Fail
			if len(f) > 600 {
				f = strings.ToValidUTF8(f[:600], "") + "..."
			}
			e := c.viol[i].enc
			if len(e) > 600 {
				e = strings.ToValidUTF8(e[:600], "") + "..."
			}
			fmt.Printf("  case %s\n    %s\n", e, f)
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", c.Prop.ID, path)
		os.Exit(1)
	}
	os.Exit(0)
}

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "quick or thorough")
	replay := flag.String("replay", "", "replay file")
	limit := flag.Int("limit", 0, "time budget in seconds")
	child := flag.String("child", "", "run a part in a process of its own")
	flag.Parse()
	if f := children[*child]; f != nil {
		if p := os.Getenv("VERIF_CPUPROFILE"); p != "" {
			w, _ := os.Create(p)
			pprof.StartCPUProfile(w)
		}
		f()
		pprof.StopCPUProfile()
		os.Exit(0)
	}
	p, ok := props[*prop]
	if !ok {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var r struct {
			Violations []struct {
				Kind string
				Case json.RawMessage
			}
		}
		json.Unmarshal(b, &r)
		bad := 0
		for _, v := range r.Violations {
			f := guard(func() string {
				f := kinds[v.Kind]
				if f == nil {
					return "no replay for " + v.Kind
				}
				return f(v.Case)
			})
			fmt.Printf("%s\n    %s\n", v.Case, f)
			if f != "" {
				bad++
			}
		}
		if bad > 0 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, *replay)
			os.Exit(1)
		}
		os.Exit(0)
	}
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	c := &Ctx{Prop: p, Tier: *tier, Seed: seed, Start: time.Now(),
		distinct: map[uint64]struct{}{}, known: loadKnown(p.ID), knownHit: map[string]bool{},
		extra: map[string]any{}, slots: make([]slot, workers+1)}
	secs := *limit
	if secs == 0 {
		secs = c.Pick(240, 780)
	}
	c.Limit = c.Start.Add(time.Duration(secs) * time.Second)
	debug.SetGCPercent(400)
	if f := os.Getenv("VERIF_CPUPROFILE"); f != "" {
		w, _ := os.Create(f)
		pprof.StartCPUProfile(w)
	}
	go c.watchdog()
	// A panic outside of a case is an error of the check.
	p.Run(c)
	c.finish()
}

// children are what "mc -child NAME" does.
var children = map[string]func(){}

var kinds = map[string]func(json.RawMessage) string{}

// kind makes the cases of a type replayable.
func kind[T any](check func(T) (string, string)) {
	var z T
	kinds[sprintf("%T", z)] = func(b json.RawMessage) string {
		var cs T
		if err := json.Unmarshal(b, &cs); err != nil {
			return "cannot decode case: " + err.Error()
		}
		_, f := check(cs)
		return f
	}
}

// Words over an alphabet of strings up to a length.
func words(alphabet []string, maxLen int) []string {
	out := []string{""}
	prev := []string{""}
	for l := 1; l <= maxLen; l++ {
		next := make([]string, 0, len(prev)*len(alphabet))
		for _, p := range prev {
			for _, a := range alphabet {
				next = append(next, p+a)
			}
		}
		out = append(out, next...)
		prev = next
	}
	return out
}

// seqs enumerates index sequences of length exactly l over n symbols.
func seqs(n, l int) [][]int {
	out := [][]int{{}}
	for i := 0; i < l; i++ {
		var next [][]int
		for _, s := range out {
			for k := 0; k < n; k++ {
				next = append(next, append(append([]int{}, s...), k))
			}
		}
		out = next
	}
	return out
}
