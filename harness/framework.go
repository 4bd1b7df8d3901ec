package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"math/rand"
	"os"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

const repoMod = "github.com/flawedmatrix/gocryptsftp"

type Violation struct {
	Kind   string      `json:"kind"`
	Detail interface{} `json:"detail"`
}

// Result is what a child process reports.
type Result struct {
	Evals        int64            `json:"evals"`
	Distinct     int64            `json:"distinct"`
	Counters     map[string]int64 `json:"counters"`
	Samples      []interface{}    `json:"samples"`
	Violations   []Violation      `json:"violations"`
	Inconclusive string           `json:"inconclusive"`
	Rule         string           `json:"rule"`
	Assumptions  []string         `json:"assumptions"`
	Done         bool             `json:"done"`
}

type Ctx struct {
	ID       string
	Seed     int64
	Thorough bool
	Dir      string // scratch directory, removed by the parent
	finish   func() // writes the result and ends the child

	mu       sync.Mutex
	evals    int64
	distinct map[uint64]struct{}
	counters map[string]int64
	samples  []interface{}
	viol     []Violation
	inconcl  string
	rule     string
	assume   []string
	needs    map[string]int64
	stop     int32
	ticks    int64 // counts observations, for the watchdog
}

func newCtx(id string, seed int64, thorough bool, dir string) *Ctx {
	return &Ctx{ID: id, Seed: seed, Thorough: thorough, Dir: dir,
		distinct: map[uint64]struct{}{}, counters: map[string]int64{}, needs: map[string]int64{}}
}

// N picks a workload size by tier.
func (c *Ctx) N(quick, thorough int) int {
	if c.Thorough {
		return thorough
	}
	return quick
}

// Rand derives an independent generator from the seed and labels.
func (c *Ctx) Rand(labels ...interface{}) *rand.Rand {
	h := fnv.New64a()
	fmt.Fprint(h, c.ID, c.Seed, labels)
	return rand.New(rand.NewSource(int64(h.Sum64())))
}

func (c *Ctx) Rule(s string)      { c.rule = s }
func (c *Ctx) Assume(s ...string) { c.assume = append(c.assume, s...) }

// Eval counts one evaluated case; key identifies the case for the distinct count,
// an empty key marks a trivial one.
func (c *Ctx) Eval(key string) {
	atomic.AddInt64(&c.ticks, 1)
	c.mu.Lock()
	c.evals++
	if key != "" && len(c.distinct) < 3000000 {
		h := fnv.New64a()
		h.Write([]byte(key))
		c.distinct[h.Sum64()] = struct{}{}
	}
	c.mu.Unlock()
}

func (c *Ctx) Count(name string, n int64) {
	atomic.AddInt64(&c.ticks, 1)
	c.mu.Lock()
	c.counters[name] += n
	c.mu.Unlock()
}

func (c *Ctx) Max(name string, n int64) {
	c.mu.Lock()
	if c.counters[name] < n {
		c.counters[name] = n
	}
	c.mu.Unlock()
}

// Need makes the run inconclusive unless the counter reaches min.
func (c *Ctx) Need(name string, min int64) {
	c.mu.Lock()
	c.needs[name] = min
	c.mu.Unlock()
}

func (c *Ctx) Sample(x interface{}) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, x)
	}
	c.mu.Unlock()
}

func (c *Ctx) Violate(kind string, format string, a ...interface{}) {
	c.mu.Lock()
	if len(c.viol) < 20 {
		c.viol = append(c.viol, Violation{kind, clip(fmt.Sprintf(format, a...), 6000)})
	}
	n := len(c.viol)
	c.mu.Unlock()
	if n == 1 && c.finish != nil {
		// enough to report: what follows may be slow on a broken program
		time.AfterFunc(100*time.Second, c.finish)
	}
	if n >= 5 {
		atomic.StoreInt32(&c.stop, 1)
	}
}

// Stopped tells workloads to end early because enough violations were seen.
func (c *Ctx) Stopped() bool { return atomic.LoadInt32(&c.stop) != 0 }

func (c *Ctx) Inconclusive(format string, a ...interface{}) {
	c.mu.Lock()
	if c.inconcl == "" {
		c.inconcl = fmt.Sprintf(format, a...)
	}
	c.mu.Unlock()
	atomic.StoreInt32(&c.stop, 1)
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d bytes)", len(s))
	}
	return s
}

func (c *Ctx) result() *Result {
	c.mu.Lock()
	defer c.mu.Unlock()
	names := []string{}
	for k := range c.needs {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		if c.counters[k] < c.needs[k] && c.inconcl == "" && len(c.viol) == 0 {
			c.inconcl = fmt.Sprintf("observed too little: %s=%d, need %d", k, c.counters[k], c.needs[k])
		}
	}
	// copies: goroutines of an abandoned workload may still be counting
	cnt := map[string]int64{}
	for k, v := range c.counters {
		cnt[k] = v
	}
	return &Result{Evals: c.evals, Distinct: int64(len(c.distinct)), Counters: cnt,
		Samples: append([]interface{}{}, c.samples...), Violations: append([]Violation{}, c.viol...), Inconclusive: c.inconcl, Rule: c.rule,
		Assumptions: c.assume, Done: true}
}

// Current records the case being executed, so that a crash can be replayed.
func (c *Ctx) Current(x interface{}) {
	b, _ := json.Marshal(x)
	_ = os.WriteFile(filepath.Join(c.Dir, "current.json"), b, 0600)
}

// ---- bounded progress ----

var goidRe = regexp.MustCompile(`(?m)^goroutine (\d+) \[([^\]]*)\]`)

func allStacks() string {
	buf := make([]byte, 4<<20)
	return string(buf[:runtime.Stack(buf, true)])
}

// repoGoroutines returns "id state topframe" for goroutines running gocryptsftp code.
func repoGoroutines(dump string) (sigs []string, live bool, text string) {
	for _, g := range strings.Split(dump, "\n\n") {
		if !strings.Contains(g, repoMod) {
			continue
		}
		m := goidRe.FindStringSubmatch(g)
		if m == nil {
			continue
		}
		state := strings.Split(m[2], ",")[0]
		switch {
		case state == "running", state == "runnable", state == "sleep", strings.HasPrefix(state, "syscall"):
			live = true
		}
		lines := strings.Split(g, "\n")
		sig := m[1] + " " + state
		for i := 1; i < len(lines); i += 2 {
			if !strings.HasPrefix(lines[i], "created by") {
				sig += "|" + strings.SplitN(lines[i], "(0x", 2)[0]
			}
		}
		sigs = append(sigs, sig)
		if len(text) < 5000 {
			text += g + "\n\n"
		}
	}
	sort.Strings(sigs)
	return
}

// Guard runs fn and waits for it. If fn does not return within a generous time,
// nothing is outstanding at the remote (inflight()==0) and the goroutines running
// gocryptsftp code are blocked in the same place in two dumps taken well apart, the
// code has lost the request: a violation with the dump as witness. Anything else that
// takes too long is inconclusive. Returns false if fn did not return.
func (c *Ctx) Guard(what string, inflight func() int64, fn func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); fn() }()
	soft, hard := 75*time.Second, 400*time.Second
	select {
	case <-done:
		return true
	case <-time.After(soft):
	}
	start := time.Now()
	for time.Since(start) < hard {
		a, liveA, _ := repoGoroutines(allStacks())
		fa := inflight()
		select {
		case <-done:
			return true
		case <-time.After(25 * time.Second):
		}
		b, liveB, text := repoGoroutines(allStacks())
		fb := inflight()
		select {
		case <-done:
			return true
		default:
		}
		if fa == 0 && fb == 0 && !liveA && !liveB && strings.Join(a, "\n") == strings.Join(b, "\n") {
			c.Violate("no-progress", "%s never returns: nothing is outstanding at the remote and every goroutine is blocked\n%s", what, text)
			atomic.StoreInt32(&c.stop, 1)
			return false
		}
	}
	c.Inconclusive("%s did not finish within the watchdog", what)
	atomic.StoreInt32(&c.stop, 1)
	return false
}

// watch ends the child when nothing has been observed for minutes while the same
// goroutine is busy inside gocryptsftp code in every dump: a call that does not end.
func (c *Ctx) watch(finish func()) {
	last, since := int64(-1), time.Now()
	for {
		time.Sleep(5 * time.Second)
		if n := atomic.LoadInt64(&c.ticks); n != last {
			last, since = n, time.Now()
			continue
		}
		if time.Since(since) < 150*time.Second {
			continue
		}
		var same map[string]bool
		text := ""
		for k := 0; k < 8 && atomic.LoadInt64(&c.ticks) == last; k++ {
			sigs, _, t := repoGoroutines(allStacks())
			busy := map[string]bool{}
			for _, s := range sigs {
				f := strings.SplitN(s, "|", 2)
				g := strings.SplitN(f[0], " ", 2)
				if len(f) == 2 && (g[1] == "running" || g[1] == "runnable") && (same == nil || same[g[0]]) {
					busy[g[0]] = true
				}
			}
			same, text = busy, t
			time.Sleep(5 * time.Second)
		}
		if len(same) > 0 && atomic.LoadInt64(&c.ticks) == last {
			c.Violate("no-progress", "a call into gocryptsftp does not end, it has been busy for more than three minutes\n%s", text)
			finish()
		}
		since = time.Now()
	}
}

func noInflight() int64 { return 0 }

// panicSafe runs fn and returns the panic text if gocryptsftp code panicked; harness
// panics propagate.
func panicSafe(fn func()) (msg string) {
	defer func() {
		if r := recover(); r != nil {
			buf := make([]byte, 16384)
			st := string(buf[:runtime.Stack(buf, false)])
			if !strings.Contains(st, repoMod) {
				panic(r)
			}
			msg = fmt.Sprintf("panic: %v\n%s", r, clip(st, 3000))
		}
	}()
	fn()
	return ""
}

func eqb(a, b []byte) bool { return bytes.Equal(a, b) }

func diffDesc(got, want []byte) string {
	if len(got) != len(want) {
		return fmt.Sprintf("length %d, want %d", len(got), len(want))
	}
	for i := range got {
		if got[i] != want[i] {
			return fmt.Sprintf("first difference at byte %d of %d", i, len(want))
		}
	}
	return "equal"
}

func must(err error) {
	if err != nil {
		panic("harness: " + err.Error())
	}
}
