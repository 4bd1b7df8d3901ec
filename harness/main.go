package main

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"
)

// Check decides one property.
type Check struct {
	Level string
	Run   func(c *Ctx)
	// Shards runs the workload in several child processes with different sub-seeds.
	Shards func(thorough bool) int
	// MaxTime bounds the whole child.
	MaxTime time.Duration
	// Race: scan the race detector's log.
	Race bool
}

var checks = map[string]*Check{}

func register(id string, c *Check) {
	if c.Level == "" {
		c.Level = "exploration"
	}
	if c.MaxTime == 0 {
		c.MaxTime = 800 * time.Second
	}
	checks[id] = c
}

func main() {
	if len(os.Args) >= 2 {
		if f := subcommands[os.Args[1]]; f != nil {
			f(os.Args[2:])
			return
		}
	}
	if len(os.Args) < 3 {
		fmt.Fprintln(os.Stderr, "usage: vh run|child ID")
		os.Exit(2)
	}
	seed := int64(1)
	if s := os.Getenv("VERIF_SEED"); s != "" {
		if v, err := strconv.ParseInt(s, 10, 64); err == nil {
			seed = v
		}
	}
	thorough := os.Getenv("VERIF_TIER") == "thorough"
	id := os.Args[2]
	ck := checks[id]
	if ck == nil {
		fmt.Fprintln(os.Stderr, "no such check", id)
		os.Exit(2)
	}
	switch os.Args[1] {
	case "child":
		child(id, ck, seed, thorough)
	case "run":
		os.Exit(parent(id, ck, seed, thorough))
	default:
		os.Exit(2)
	}
}

// subcommands are helper processes used by some checks.
var subcommands = map[string]func(args []string){}

func child(id string, ck *Check, seed int64, thorough bool) {
	dir := os.Getenv("VH_DIR")
	c := newCtx(id, seed, thorough, dir)
	if !ck.Race && (os.Getenv("VH_BIN") == "" || id == "C22" || id == "C08") {
		// a call that allocates without end shall end this process, not others
		l := syscall.Rlimit{Cur: 14 << 30, Max: 14 << 30}
		_ = syscall.Setrlimit(syscall.RLIMIT_AS, &l)
	}
	var once sync.Once
	finish := func() {
		once.Do(func() {
			b, err := json.Marshal(c.result())
			must(err)
			must(os.WriteFile(filepath.Join(dir, "result.json"), b, 0600))
			os.Exit(0)
		})
	}
	c.finish = finish
	if d, err := strconv.ParseInt(os.Getenv("VH_LIMIT_MS"), 10, 64); err == nil {
		time.AfterFunc(time.Duration(d)*time.Millisecond-10*time.Second, func() {
			c.mu.Lock()
			n := len(c.viol)
			c.mu.Unlock()
			if n > 0 {
				finish()
			}
		})
	}
	go c.watch(finish)
	ck.Run(c)
	finish()
}

type KnownFinding struct {
	Property string `json:"property"`
	Kind     string `json:"kind"`
	Match    string `json:"match"` // substring of the violation text
	What     string `json:"what"`
}

func verifDir() string {
	if d := os.Getenv("VH_VERIF"); d != "" {
		return d
	}
	return "/verif"
}

// known findings: lines "known: {json}" of known-findings.txt
func loadKnown(id string) (out []KnownFinding) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known-findings.txt"))
	if err != nil {
		return nil
	}
	for _, l := range strings.Split(string(b), "\n") {
		if strings.HasPrefix(l, "known: ") {
			var k KnownFinding
			if json.Unmarshal([]byte(l[7:]), &k) == nil && k.Property == id {
				out = append(out, k)
			}
		}
	}
	return
}

func parent(id string, ck *Check, seed int64, thorough bool) int {
	start := time.Now()
	shards := 1
	if ck.Shards != nil {
		shards = ck.Shards(thorough)
	}
	total := &Result{Counters: map[string]int64{}}
	rc := 0
	var problem string
	maxTime := ck.MaxTime
	if thorough {
		maxTime *= 20
	}
	deadline := start.Add(maxTime)
	for s := 0; s < shards; s++ {
		r, prob := runChild(id, ck, seed, s, thorough, time.Until(deadline))
		if r != nil {
			total.Evals += r.Evals
			total.Distinct += r.Distinct
			for k, v := range r.Counters {
				if strings.HasPrefix(k, "max_") {
					if total.Counters[k] < v {
						total.Counters[k] = v
					}
				} else {
					total.Counters[k] += v
				}
			}
			total.Samples = append(total.Samples, r.Samples...)
			total.Violations = append(total.Violations, r.Violations...)
			if r.Rule != "" {
				total.Rule = r.Rule
			}
			if len(r.Assumptions) > 0 {
				total.Assumptions = r.Assumptions
			}
			if r.Inconclusive != "" && prob == "" {
				prob = "inconclusive: " + r.Inconclusive
			}
		}
		if prob != "" && problem == "" {
			problem = prob
		}
		if len(total.Violations) > 0 || problem != "" {
			break
		}
	}
	var report []Violation
	known := loadKnown(id)
	hit := make([]bool, len(known))
	for _, v := range total.Violations {
		listed := false
		for i, k := range known {
			if k.Kind == v.Kind && strings.Contains(fmt.Sprint(v.Detail), k.Match) {
				hit[i], listed = true, true
				break
			}
		}
		if !listed {
			report = append(report, v)
		}
	}
	for i, k := range known {
		note := ""
		if !hit[i] {
			note = " (not reproduced in this run)"
		}
		fmt.Printf("KNOWN-FINDING: property=%s %s%s\n", id, k.What, note)
	}
	tier := "quick"
	if thorough {
		tier = "thorough"
	}
	if len(total.Samples) > 8 {
		total.Samples = total.Samples[:8]
	}
	if len(total.Samples) == 0 {
		total.Samples = []interface{}{"none"}
	}
	cov := map[string]interface{}{"evaluations": total.Evals, "distinct_nontrivial": total.Distinct, "rule": total.Rule, "samples": total.Samples, "observed": total.Counters}
	ev := map[string]interface{}{"property": id, "tier": tier, "seed": seed, "level": ck.Level, "coverage": cov,
		"wall_s": time.Since(start).Seconds(), "violations": len(report), "assumptions": total.Assumptions}
	if total.Assumptions == nil {
		ev["assumptions"] = []string{}
	}
	if len(report) > 0 {
		rp := filepath.Join(verifDir(), "replays", fmt.Sprintf("%s-%s-seed%d.json", id, tier, seed))
		_ = os.MkdirAll(filepath.Dir(rp), 0755)
		b, _ := json.MarshalIndent(map[string]interface{}{"property": id, "seed": seed, "tier": tier, "violations": report,
			"rerun": fmt.Sprintf("cd /verif && VERIF_SEED=%d VERIF_TIER=%s bash run.sh %s", seed, tier, id)}, "", " ")
		must(os.WriteFile(rp, b, 0644))
		for i, v := range report {
			if i < 3 {
				fmt.Printf("  %s: %s\n", v.Kind, clip(fmt.Sprint(v.Detail), 1500))
			}
		}
		fmt.Printf("VIOLATION property=%s replay=%s\n", id, rp)
		rc = 1
	} else if problem != "" {
		fmt.Printf("ERROR property=%s %s\n", id, problem)
		rc = 2
	} else {
		keys := []string{}
		for k := range total.Counters {
			keys = append(keys, k)
		}
		sort.Strings(keys)
		fmt.Printf("OK property=%s evaluations=%d distinct=%d wall=%.1fs", id, total.Evals, total.Distinct, time.Since(start).Seconds())
		for _, k := range keys {
			fmt.Printf(" %s=%d", k, total.Counters[k])
		}
		fmt.Println()
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	_ = os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0755)
	must(os.WriteFile(filepath.Join(verifDir(), "evidence", id+".json"), b, 0644))
	return rc
}

// tailBuffer keeps the first and last parts of a stream.
type tailBuffer struct{ head, tail []byte }

func (t *tailBuffer) Write(p []byte) (int, error) {
	n := len(p)
	if len(t.head) < 64<<10 {
		k := min(len(p), 64<<10-len(t.head))
		t.head = append(t.head, p[:k]...)
		p = p[k:]
	}
	t.tail = append(t.tail, p...)
	if len(t.tail) > 256<<10 {
		t.tail = append([]byte{}, t.tail[len(t.tail)-128<<10:]...)
	}
	return n, nil
}
func (t *tailBuffer) String() string { return string(t.head) + string(t.tail) }

var crashRe = regexp.MustCompile(`(?m)^(panic: |fatal error: |runtime: goroutine stack exceeds|SIGSEGV|unexpected fault)`)

// crashInRepo extracts the crash report if the crashing goroutine runs gocryptsftp code.
func crashInRepo(stderr string) string {
	loc := crashRe.FindStringIndex(stderr)
	if loc == nil {
		return ""
	}
	s := stderr[loc[0]:]
	// the crashing goroutine is printed first
	i := strings.Index(s, "\ngoroutine ")
	if i < 0 {
		return ""
	}
	rest := s[i+1:]
	if j := strings.Index(rest, "\n\n"); j >= 0 {
		rest = rest[:j]
	}
	frames := rest
	if k := strings.Index(frames, "\ncreated by "); k >= 0 {
		frames = frames[:k]
	}
	// a panic of the sftp server on what the handlers return to it counts as well
	server := strings.Contains(frames, "github.com/pkg/sftp.(*RequestServer)") && !strings.Contains(frames, "\nmain.")
	if strings.Contains(frames, repoMod) || server || strings.Contains(s[:i], neither) {
		return clip(s[:i]+"\n"+rest, 5000)
	}
	return ""
}

func runChild(id string, ck *Check, seed int64, shard int, thorough bool, limit time.Duration) (*Result, string) {
	dir, err := os.MkdirTemp("", "vh-"+id+"-")
	must(err)
	defer os.RemoveAll(dir)
	ctx, cancel := context.WithTimeout(context.Background(), limit)
	defer cancel()
	cmd := exec.CommandContext(ctx, os.Args[0], "child", id)
	tmp := filepath.Join(dir, "tmp")
	must(os.Mkdir(tmp, 0700))
	cmd.Env = append(os.Environ(), "VH_DIR="+dir, "TMPDIR="+tmp,
		fmt.Sprintf("VERIF_SEED=%d", seed+int64(shard)*1000003), "GOTRACEBACK=all", fmt.Sprintf("VH_SHARD=%d", shard), fmt.Sprintf("VH_LIMIT_MS=%d", limit.Milliseconds()),
		"GORACE=halt_on_error=0 exitcode=0 log_path="+filepath.Join(dir, "race"))
	var out, errb tailBuffer
	cmd.Stdout = &out
	cmd.Stderr = &errb
	cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	runErr := cmd.Run()
	var r *Result
	if b, err := os.ReadFile(filepath.Join(dir, "result.json")); err == nil {
		r = &Result{}
		if json.Unmarshal(b, r) != nil || !r.Done {
			r = nil
		}
	}
	if ck.Race {
		if r == nil {
			r = &Result{Counters: map[string]int64{}}
		}
		rep, n := raceReports(dir)
		r.Violations = append(r.Violations, rep...)
		if r.Counters != nil {
			r.Counters["race_reports_total"] += int64(n)
		}
		if len(rep) > 0 {
			return r, ""
		}
	}
	if runErr != nil {
		if cr := crashInRepo(errb.String()); cr != "" {
			cur, _ := os.ReadFile(filepath.Join(dir, "current.json"))
			if r == nil {
				r = &Result{Counters: map[string]int64{}}
			}
			r.Violations = append(r.Violations, Violation{"crash", "gocryptsftp crashed; case " + string(cur) + "\n" + cr})
			return r, ""
		}
		return r, fmt.Sprintf("the harness failed: %v\n%s\n%s", runErr, clip(errb.String(), 8000), clip(out.String(), 2000))
	}
	if r == nil {
		return nil, "the harness left no result"
	}
	return r, ""
}

func raceReports(dir string) (out []Violation, n int) {
	fs, _ := filepath.Glob(filepath.Join(dir, "race*"))
	own, _ := filepath.Glob(filepath.Join(dir, "binrace*"))
	seen := map[string]bool{}
	for _, f := range append(fs, own...) {
		b, _ := os.ReadFile(f)
		if strings.HasPrefix(filepath.Base(f), "bin") { // the program's own main package
			b = raceMain.ReplaceAll(b, []byte("  "+repoMod+"/main."))
		}
		for _, rep := range strings.Split(string(b), "==================") {
			if !strings.Contains(rep, "WARNING: DATA RACE") {
				continue
			}
			n++
			if !raceOfRepo(rep) {
				continue
			}
			key := raceKey(rep)
			if seen[key] || len(out) > 5 {
				continue
			}
			seen[key] = true
			out = append(out, Violation{"data-race", clip(rep, 4000)})
		}
	}
	return
}

// raceAccessStacks drops the "Goroutine N created at" parts.
func raceAccessStacks(rep string) string {
	if i := strings.Index(rep, "\nGoroutine "); i >= 0 {
		return rep[:i]
	}
	return rep
}

// raceOfRepo: one of the accesses is made by gocryptsftp code (possibly through the
// standard library), or both are made on its behalf through another library. Races
// inside a library between a call and the library's own goroutines are not counted.
func raceOfRepo(rep string) bool {
	var blocks []string
	for _, b := range strings.Split(raceAccessStacks(rep), "\n\n") {
		if strings.Contains(b, " by goroutine ") || strings.Contains(b, " by main goroutine") {
			blocks = append(blocks, b)
		}
	}
	both := len(blocks) >= 2
	for _, b := range blocks {
		if !strings.Contains(b, repoMod) {
			both = false
		}
		for _, m := range raceFn.FindAllStringSubmatch(b, -1) {
			f := m[1]
			first := strings.SplitN(f, "/", 2)[0]
			if strings.HasPrefix(f, "main.") {
				break
			}
			if strings.Contains(f, "/") && strings.Contains(first, ".") {
				if strings.HasPrefix(f, repoMod) {
					return true
				}
				break
			}
		}
	}
	return both
}

var raceMain = regexp.MustCompile(`(?m)^  main\.`)
var raceFn = regexp.MustCompile(`(?m)^  (\S+)\(`)

func raceKey(rep string) string {
	var k []string
	for _, m := range raceFn.FindAllStringSubmatch(raceAccessStacks(rep), -1) {
		k = append(k, m[1])
	}
	return strings.Join(k, "|")
}
