package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/flawedmatrix/gocryptsftp/requester"
)

func init() {
	register("C09", &Check{Run: runC09})
	register("C10", &Check{Run: runC10})
	register("C11", &Check{Run: runC11})
	register("C12", &Check{Run: runC12})
}

// fetch is one backend call in the log.
type fetch struct {
	no         int64
	kind       byte // F, D, N
	key        string
	start, end int64 // logical times; end is set before the call returns
	failed     bool
}

// logBackend implements requester.Backend and requester.Decrypter. Every result names
// the kind, key and number of the call that produced it.
type logBackend struct {
	clock    *int64
	mu       sync.Mutex
	rnd      *rand.Rand
	log      []*fetch
	inflight int64
	maxInfl  int64
	perKey   map[string]int
	errs     sync.Map // error to *fetch
	// behaviour
	delay func(r *rand.Rand, kind byte, key string) time.Duration
	fail  func(r *rand.Rand, kind byte, key string) int // 0 ok, 1 error, 2 error with data
	empty func(kind byte, key string) bool
	hold  func(kind byte, key string) // may block
}

func tick(clock *int64) int64 { return atomic.AddInt64(clock, 1) }

func newLogBackend(r *rand.Rand, clock *int64) *logBackend {
	return &logBackend{clock: clock, rnd: r, perKey: map[string]int{}}
}

func (b *logBackend) Inflight() int64 { return atomic.LoadInt64(&b.inflight) }

func (b *logBackend) call(kind byte, key string) (*fetch, int) {
	n := atomic.AddInt64(&b.inflight, 1)
	defer atomic.AddInt64(&b.inflight, -1)
	b.mu.Lock()
	if n > b.maxInfl {
		b.maxInfl = n
	}
	f := &fetch{no: int64(len(b.log)), kind: kind, key: key}
	b.log = append(b.log, f)
	b.perKey[string(kind)+key]++
	var d time.Duration
	if b.delay != nil {
		d = b.delay(b.rnd, kind, key)
	}
	mode := 0
	if b.fail != nil {
		mode = b.fail(b.rnd, kind, key)
	}
	f.start = tick(b.clock)
	b.mu.Unlock()
	if b.hold != nil {
		b.hold(kind, key)
	}
	if d > 0 {
		time.Sleep(d)
	}
	b.mu.Lock()
	f.failed = mode != 0
	f.end = tick(b.clock)
	b.mu.Unlock()
	return f, mode
}

func (f *fetch) tag() string {
	return fmt.Sprintf("%c|%s|%d", f.kind, hex.EncodeToString([]byte(f.key)), f.no)
}

// failed makes the error of a failed call, of any kind a remote call can fail with.
func (b *logBackend) failed(f *fetch) error {
	k := int(f.no % failKinds)
	if k == 0 {
		k = int(f.no/failKinds) % failOwn
	}
	err := failure(k, f.key)
	if k < failOwn {
		b.errs.Store(err, f)
	}
	return err
}

func (b *logBackend) ReadFile(p string) ([]byte, error) {
	f, mode := b.call('F', p)
	var d []byte
	if b.empty == nil || !b.empty('F', p) {
		d = []byte(f.tag())
	}
	switch mode {
	case 1:
		return nil, b.failed(f)
	case 2:
		return d, b.failed(f)
	}
	return d, nil
}

func (b *logBackend) ReadDir(p string) ([]os.FileInfo, error) {
	f, mode := b.call('D', p)
	var d []os.FileInfo
	if b.empty == nil || !b.empty('D', p) {
		d = []os.FileInfo{&memInfo{name: f.tag()}, &memInfo{name: f.tag()}}
	}
	switch mode {
	case 1:
		return nil, b.failed(f)
	case 2:
		return d, b.failed(f)
	}
	return d, nil
}

func (b *logBackend) DecryptName(name string, iv []byte) (string, error) {
	f, mode := b.call('N', name+"\x00"+string(iv))
	d := ""
	if b.empty == nil || !b.empty('N', name) {
		d = f.tag()
	}
	switch mode {
	case 1:
		return "", b.failed(f)
	case 2:
		return d, b.failed(f)
	}
	return d, nil
}

// rreq is one client request with its result.
type rreq struct {
	kind       byte
	a1         string
	iv         []byte
	start, end int64
	res        string // joined tags, "" for empty
	err        error
}

func (q *rreq) key() string {
	if q.kind == 'N' {
		return q.a1 + "\x00" + string(q.iv)
	}
	return q.a1
}

func doReq(rq *requester.Requester, clock *int64, q *rreq) {
	q.start = tick(clock)
	switch q.kind {
	case 'F':
		var b []byte
		b, q.err = rq.ReadFile(q.a1)
		q.res = string(b)
	case 'D':
		var l []os.FileInfo
		l, q.err = rq.ReadDir(q.a1)
		if len(l) > 0 {
			q.res = l[0].Name()
			if len(l) != 2 || l[1].Name() != q.res {
				q.res = fmt.Sprintf("malformed listing of %d entries", len(l))
			}
		}
	case 'N':
		q.res, q.err = rq.DecryptName(q.a1, q.iv)
	}
	q.end = tick(clock)
}

// parseTag finds the fetch a result names.
func (b *logBackend) parseTag(s string) *fetch {
	p := strings.Split(s, "|")
	if len(p) != 3 || len(p[0]) != 1 {
		return nil
	}
	var no int64
	if _, err := fmt.Sscanf(p[2], "%d", &no); err != nil {
		return nil
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	if no < 0 || no >= int64(len(b.log)) {
		return nil
	}
	if f := b.log[no]; f.tag() == s {
		return f
	}
	return nil
}

// judgeOwn checks that a result belongs to its request.
func judgeOwn(c *Ctx, b *logBackend, q *rreq) *fetch {
	if q.err != nil {
		return nil
	}
	isEmpty := b.empty != nil && b.empty(q.kind, q.a1)
	if q.res == "" {
		if !isEmpty {
			c.Violate("empty-result", "%c %q returned success without data", q.kind, q.a1)
		}
		return nil
	}
	f := b.parseTag(q.res)
	switch {
	case f == nil:
		c.Violate("foreign-result", "%c %q returned %q, which the backend never produced", q.kind, q.a1, q.res)
	case f.kind != q.kind || f.key != q.key():
		c.Violate("foreign-result", "%c %q (iv %x) returned the result of %c %q", q.kind, q.a1, q.iv, f.kind, f.key)
	case f.failed:
		c.Violate("failed-data-served", "%c %q returned the data of failed call %d as a success", q.kind, q.a1, f.no)
	case isEmpty:
		c.Violate("foreign-result", "%c %q is empty but returned %q", q.kind, q.a1, q.res)
	}
	return f
}

var reqNames = []string{"a", "b", "a+b", "a+", "/x/y", "/x/y/", "", "é", "long-" + strings.Repeat("n", 300)}

// collidingIVs are directory IVs with the same SipHash-2-4 under the key the repository
// once used to name cached name decryptions, found by a parallel collision search in about
// a minute.
var collidingIVs = [][]byte{
	unhex("5c6286210a762ebd8da142ea3183ead3"),
	unhex("b9cc3140efd0011b2e67b9575eacda45"),
}

func unhex(s string) []byte {
	b, err := hex.DecodeString(s)
	must(err)
	return b
}

func genReq(r *rand.Rand, keys int) *rreq {
	q := &rreq{kind: "FDN"[r.Intn(3)]}
	q.a1 = fmt.Sprintf("%s%d", reqNames[r.Intn(len(reqNames))], r.Intn(keys))
	if r.Intn(6) == 0 {
		q.a1 = "empty" + fmt.Sprint(r.Intn(3))
	}
	if q.kind == 'N' {
		q.iv = []byte{byte(r.Intn(3)), 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, byte(r.Intn(2))}
		switch r.Intn(12) {
		case 0:
			q.iv = q.iv[:r.Intn(16)]
		case 1, 2, 3:
			q.iv = collidingIVs[r.Intn(len(collidingIVs))]
		}
	}
	return q
}

type ival struct{ a, b int64 }

func overlaps(l []ival, a, b int64) bool {
	i := sort.Search(len(l), func(i int) bool { return l[i].b >= a })
	for ; i < len(l); i++ {
		if l[i].a <= b {
			return true
		}
	}
	return false
}

func runC09(c *Ctx) {
	c.Rule("episodes of 2..48 goroutines issuing file reads, listings and name decryptions over few keys against a backend with random delays, failures (with and without partial data) and empty results, " +
		"1..16 workers, with and without concurrent cache clears, over perturbed schedules; every result is matched to the backend call that produced it; a case is one request; non-trivial if it was served by a call another request caused or followed a failure")
	c.Assume("results are identified by tags; requests fail legitimately only if a backend call for their key failed, or the caches were cleared, while they ran")
	var side sync.WaitGroup
	for k := 0; k < c.N(6, 24); k++ {
		hr := c.Rand("held", k)
		side.Add(1)
		go func() { defer side.Done(); heldWorkers(c, hr, time.Duration(3+hr.Intn(6))*time.Second) }()
	}
	defer side.Wait()
	longLived(c, c.Rand("long"), []int{1, 1, 4, 32}[c.Rand("lw").Intn(4)], c.N(40000, 600000), 0)
	c.Need("asked_while_workers_wait", 200)
	c.Need("long_lived_items", 40000)
	eps := c.N(160, 2500)
	for e := 0; e < eps && !c.Stopped(); e++ {
		r := c.Rand(e)
		clock := new(int64)
		b := newLogBackend(rand.New(rand.NewSource(r.Int63())), clock)
		slow := r.Intn(3)
		b.delay = func(r *rand.Rand, kind byte, key string) time.Duration {
			switch slow {
			case 0:
				return 0
			case 1:
				return time.Duration(r.Intn(300)) * time.Microsecond
			}
			if r.Intn(10) == 0 {
				return time.Duration(r.Intn(4000)) * time.Microsecond
			}
			return 0
		}
		failRate := []int{0, 0, 30, 6, 2}[r.Intn(5)]
		b.fail = func(r *rand.Rand, kind byte, key string) int {
			if failRate > 0 && r.Intn(failRate) == 0 {
				return 1 + r.Intn(2)
			}
			return 0
		}
		b.empty = func(kind byte, key string) bool { return strings.HasPrefix(key, "empty") }
		workers := []int{1, 2, 3, 8, 16}[r.Intn(5)]
		clients := []int{2, 4, 12, 48}[r.Intn(4)]
		clears := r.Intn(3) == 0
		keys := []int{1, 2, 6}[r.Intn(3)]
		rq := requester.New(workers, b, b)
		rq.Start()
		var mu sync.Mutex
		var done []*rreq
		var clearIv []ival
		ok := c.Guard("concurrent requests", b.Inflight, func() {
			var wg sync.WaitGroup
			stop := int32(0)
			var cwg sync.WaitGroup
			if clears {
				cr := rand.New(rand.NewSource(r.Int63()))
				cwg.Add(1)
				go func() {
					defer cwg.Done()
					for atomic.LoadInt32(&stop) == 0 {
						a := tick(clock)
						rq.ClearCache()
						z := tick(clock)
						mu.Lock()
						clearIv = append(clearIv, ival{a, z})
						mu.Unlock()
						time.Sleep(time.Duration(cr.Intn(3000)) * time.Microsecond)
					}
				}()
			}
			for g := 0; g < clients; g++ {
				gr := rand.New(rand.NewSource(r.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 40; k++ {
						q := genReq(gr, keys)
						doReq(rq, clock, q)
						mu.Lock()
						done = append(done, q)
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			atomic.StoreInt32(&stop, 1)
			cwg.Wait()
		})
		if !ok {
			return
		}
		rq.Stop()
		// judge
		fails := map[string][]ival{}
		nFail := 0
		for _, f := range b.log {
			if f.failed {
				nFail++
				k := string(f.kind) + f.key
				// the failure reaches the requests waiting for it a little after the call
				// ended: until the first of them returned (the last, if caches are cleared)
				end := f.end
				first := true
				for _, q := range done {
					if q.kind == f.kind && q.key() == f.key && q.start <= f.end && q.end >= f.end {
						if first || (clears && q.end > end) || (!clears && q.end < end) {
							end = q.end
						}
						first = false
					}
				}
				fails[k] = append(fails[k], ival{f.start, end})
			}
		}
		for k := range fails {
			l := fails[k]
			sort.Slice(l, func(i, j int) bool { return l[i].b < l[j].b })
		}
		for _, q := range done {
			f := judgeOwn(c, b, q)
			key := ""
			if f != nil && (f.start < q.start || f.end > q.end) {
				key = fmt.Sprint(e, q.kind, q.a1, q.iv, f.no)
				c.Count("served_from_cache_or_shared", 1)
			}
			if q.err != nil {
				c.Count("errors", 1)
				key = fmt.Sprint(e, "err", q.start)
				k := string(q.kind) + q.key()
				for err := q.err; err != nil; err = errors.Unwrap(err) {
					if x, ok := b.errs.Load(err); ok {
						if ff := x.(*fetch); ff.kind != q.kind || ff.key != q.key() {
							c.Violate("foreign-error", "%c %q got the error of %c %q", q.kind, q.a1, ff.kind, ff.key)
						}
						c.Count("errors_of_known_calls", 1)
					}
				}
				if !overlaps(fails[k], q.start, q.end) && !overlaps(clearIv, q.start, q.end) {
					c.Violate("spurious-failure", "%c %q (iv %x) failed with %q although no backend call for it failed and nothing was cleared during the request (workers %d, clients %d, fail rate 1/%d)", q.kind, q.a1, q.iv, q.err, workers, clients, failRate)
				}
			}
			if q.res == "" && q.err == nil {
				c.Count("empty_results", 1)
			}
			c.Eval(key)
		}
		c.Count("backend_calls", int64(len(b.log)))
		c.Count("backend_failures", int64(nFail))
		c.Count("cache_clears", int64(len(clearIv)))
		c.Max("max_concurrent_backend_calls", b.maxInfl)
		if e%40 == 0 {
			c.Sample(fmt.Sprintf("episode %d: workers %d, clients %d, keys %d, clears %d: %d requests, %d backend calls, %d failed", e, workers, clients, keys, len(clearIv), len(done), len(b.log), nFail))
		}
	}
	c.Need("served_from_cache_or_shared", 10000)
	c.Need("backend_failures", 500)
	c.Need("cache_clears", 500)
	c.Need("empty_results", 1000)
}

// ---- C10 ----

func runC10(c *Ctx) {
	c.Rule("episodes of 2..64 goroutines released together on few keys against a slow, never failing backend, then again later; and whole-proxy sessions over the memory remote; the number of backend calls per key is counted; " +
		"a case is one key requested by several clients")
	c.Assume("the remote does not fail and nothing is cleared")
	longLived(c, c.Rand("long"), []int{1, 4, 32}[c.Rand("lw").Intn(3)], c.N(40000, 600000), 0)
	c.Need("long_lived_items", 40000)
	eps := c.N(200, 3000)
	for e := 0; e < eps && !c.Stopped(); e++ {
		r := c.Rand(e)
		clock := new(int64)
		b := newLogBackend(rand.New(rand.NewSource(r.Int63())), clock)
		slow := r.Intn(2)
		b.delay = func(r *rand.Rand, kind byte, key string) time.Duration {
			if slow == 0 {
				return time.Duration(r.Intn(100)) * time.Microsecond
			}
			return time.Duration(r.Intn(3000)) * time.Microsecond
		}
		b.empty = func(kind byte, key string) bool { return strings.HasPrefix(key, "empty") }
		workers := []int{1, 2, 8, 32}[r.Intn(4)]
		clients := []int{2, 8, 64}[r.Intn(3)]
		rq := requester.New(workers, b, b)
		rq.Start()
		asked := map[string]int{}
		var mu sync.Mutex
		if !c.Guard("concurrent requests", b.Inflight, func() {
			for wave := 0; wave < 3; wave++ {
				var wg sync.WaitGroup
				gate := make(chan struct{})
				for g := 0; g < clients; g++ {
					gr := rand.New(rand.NewSource(r.Int63()))
					wg.Add(1)
					go func() {
						defer wg.Done()
						<-gate
						for k := 0; k < 6; k++ {
							q := genReq(gr, 2)
							doReq(rq, clock, q)
							if q.err != nil {
								c.Violate("spurious-failure", "%c %q failed without any backend failure: %v", q.kind, q.a1, q.err)
							}
							judgeOwn(c, b, q)
							mu.Lock()
							asked[string(q.kind)+q.key()]++
							mu.Unlock()
						}
					}()
				}
				close(gate)
				wg.Wait()
			}
		}) {
			return
		}
		rq.Stop()
		for k, n := range asked {
			key := ""
			if n > 1 {
				key = fmt.Sprint(e, k)
			}
			c.Eval(key)
			if got := b.perKey[k]; got != 1 {
				c.Violate("fetched-again", "%q was requested %d times and fetched %d times (workers %d, clients %d)", k, n, got, workers, clients)
			}
		}
		for k, n := range b.perKey {
			if asked[k] == 0 {
				c.Violate("unasked-fetch", "%q was fetched %d times but never requested", k, n)
			}
		}
		c.Count("requests", int64(clients*18))
		c.Count("backend_calls", int64(len(b.log)))
		if e%50 == 0 {
			c.Sample(fmt.Sprintf("episode %d: %d clients, %d requests, %d distinct keys, %d backend calls", e, clients, clients*18, len(asked), len(b.log)))
		}
	}
	// through the whole proxy
	for e := 0; e < c.N(16, 160) && !c.Stopped(); e++ {
		r := c.Rand("proxy", e)
		v := newVolume(r, cfgAll[e%len(cfgAll)], "/enc")
		randTree(r, v, 30, 30, 6000)
		fs := newMemFS()
		fs.Load(v)
		fs.Before = func(op, p string) error {
			time.Sleep(time.Duration(len(p)%5) * 300 * time.Microsecond)
			return nil
		}
		h, err := openHandlers(v, fs, []int{1, 4, 32}[r.Intn(3)])
		if err != nil {
			c.Violate("open-failed", "a valid volume does not open: %v", err)
			return
		}
		if !c.Guard("sessions", fs.Inflight, func() {
			var all []*Node
			v.Walk(func(n *Node) { all = append(all, n) })
			var wg sync.WaitGroup
			for s := 0; s < 12; s++ {
				view := viewOf(0, h, 0)
				sr := rand.New(rand.NewSource(r.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer view.Close()
					for k := 0; k < 40; k++ {
						n := all[sr.Intn(len(all))]
						var err error
						switch {
						case sr.Intn(3) == 0:
							_, err = view.Stat(n.Path)
						case n.Dir:
							_, err = view.List(n.Path)
						default:
							_, err = view.Read(n.Path)
						}
						c.Count("proxy_requests", 1)
						if err != nil {
							c.Violate("request-failed", "%q: %v", n.Path, err)
						}
					}
				}()
			}
			wg.Wait()
		}) {
			return
		}
		for cl, n := range fs.CallCount() {
			if cl.Op == "Stat" || strings.HasSuffix(cl.Path, "gocryptfs.conf") {
				continue
			}
			c.Eval(fmt.Sprint("proxy", e, cl))
			c.Count("proxy_fetches", 1)
			if n > 1 {
				c.Violate("fetched-again", "proxy: %s %q was fetched %d times", cl.Op, cl.Path, n)
			}
		}
	}
	c.Need("requests", 20000)
	c.Need("proxy_fetches", 500)
}

// ---- C12 ----

func runC12(c *Ctx) {
	c.Rule("episodes with requests, slow fetches and cache clears at random and at targeted moments (just before a fetch returns, just after, twice in a row); each result's backend call must have ended after the last clear that was complete before the request started began; " +
		"a case is one request issued after a clear; non-trivial if data for its key had been produced before that clear")
	c.Assume("times are a shared logical clock: a result's production time is the end of its backend call")
	eps := c.N(240, 4000)
	for e := 0; e < eps && !c.Stopped(); e++ {
		r := c.Rand(e)
		clock := new(int64)
		b := newLogBackend(rand.New(rand.NewSource(r.Int63())), clock)
		targeted := r.Intn(2) == 0
		var rq *requester.Requester
		var mu sync.Mutex
		var clears []ival
		var done []*rreq
		doClear := func() {
			a := tick(clock)
			rq.ClearCache()
			z := tick(clock)
			mu.Lock()
			clears = append(clears, ival{a, z})
			mu.Unlock()
		}
		b.delay = func(r *rand.Rand, kind byte, key string) time.Duration {
			return time.Duration(r.Intn(1500)) * time.Microsecond
		}
		failing := r.Intn(3) == 0
		b.fail = func(r *rand.Rand, kind byte, key string) int {
			if failing && r.Intn(5) == 0 {
				return 1
			}
			return 0
		}
		rq = requester.New([]int{1, 2, 8}[r.Intn(3)], &clearBackend{b, targeted, doClear, rand.New(rand.NewSource(r.Int63()))}, nil2dec{b})
		rq.Start()
		if !c.Guard("requests and clears", b.Inflight, func() {
			var wg sync.WaitGroup
			stop := int32(0)
			var cwg sync.WaitGroup
			cr := rand.New(rand.NewSource(r.Int63()))
			cwg.Add(1)
			go func() {
				defer cwg.Done()
				for atomic.LoadInt32(&stop) == 0 {
					doClear()
					time.Sleep(time.Duration(cr.Intn(4000)) * time.Microsecond)
				}
			}()
			for g := 0; g < 8; g++ {
				gr := rand.New(rand.NewSource(r.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 30; k++ {
						q := &rreq{kind: "FDN"[gr.Intn(3)], a1: fmt.Sprint("k", gr.Intn(2))}
						if q.kind == 'N' {
							q.iv = []byte{byte(gr.Intn(2))}
						}
						doReq(rq, clock, q)
						mu.Lock()
						done = append(done, q)
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			atomic.StoreInt32(&stop, 1)
			cwg.Wait()
			// quiet end: clear once more, then ask for everything
			doClear()
			for _, kd := range "FDN" {
				for k := 0; k < 2; k++ {
					q := &rreq{kind: byte(kd), a1: fmt.Sprint("k", k)}
					if kd == 'N' {
						q.iv = []byte{1}
					}
					doReq(rq, clock, q)
					done = append(done, q)
				}
			}
		}) {
			return
		}
		rq.Stop()
		sort.Slice(clears, func(i, j int) bool { return clears[i].b < clears[j].b })
		for _, q := range done {
			if q.err != nil {
				c.Eval("")
				continue
			}
			f := judgeOwn(c, b, q)
			if f == nil {
				continue
			}
			// the latest begin among clears complete before the request started
			var begin int64
			for _, cl := range clears {
				if cl.b < q.start && cl.a > begin {
					begin = cl.a
				}
			}
			key := ""
			older := false
			for _, g := range b.log {
				if g.kind == f.kind && g.key == f.key && g.end < begin {
					older = true
					break
				}
			}
			if begin > 0 && older {
				key = fmt.Sprint(e, q.start)
				c.Count("requests_after_clear", 1)
			}
			c.Eval(key)
			if f.end < begin {
				c.Violate("stale-result", "%c %q asked at %d got the result of call %d, which ended at %d, before the clear that began at %d (and was complete before the request)", q.kind, q.a1, q.start, f.no, f.end, begin)
			}
		}
		c.Count("clears", int64(len(clears)))
		c.Count("backend_calls", int64(len(b.log)))
		inflightClears := int64(0)
		for _, cl := range clears {
			for _, f := range b.log {
				if f.start < cl.a && f.end > cl.b {
					inflightClears++
					break
				}
			}
		}
		c.Count("clears_with_fetch_in_flight", inflightClears)
		if e%60 == 0 {
			c.Sample(fmt.Sprintf("episode %d: %d requests, %d clears (%d with a fetch in flight), %d backend calls", e, len(done), len(clears), inflightClears, len(b.log)))
		}
	}
	c.Need("requests_after_clear", 5000)
	c.Need("clears_with_fetch_in_flight", 1000)
}

// clearBackend clears the caches from another goroutine right when a call is about to
// return its data.
type clearBackend struct {
	*logBackend
	on    bool
	clear func()
	r     *rand.Rand
}

func (b *clearBackend) maybe() {
	if !b.on {
		return
	}
	b.logBackend.mu.Lock()
	x := b.r.Intn(10)
	b.logBackend.mu.Unlock()
	if x == 0 {
		ch := make(chan struct{})
		go func() { b.clear(); close(ch) }()
		<-ch
	}
	if x == 1 {
		go b.clear()
	}
}

func (b *clearBackend) ReadFile(p string) ([]byte, error) {
	d, err := b.logBackend.ReadFile(p)
	b.maybe()
	return d, err
}

func (b *clearBackend) ReadDir(p string) ([]os.FileInfo, error) {
	d, err := b.logBackend.ReadDir(p)
	b.maybe()
	return d, err
}

type nil2dec struct{ b *logBackend }

func (n nil2dec) DecryptName(name string, iv []byte) (string, error) {
	return n.b.DecryptName(name, iv)
}

// ---- C11 ----

func runC11(c *Ctx) {
	c.Rule("phases of failure (each kind of request, alone and with many waiters), after which every item must be served; stalls long enough for requests to time out, with 1..4 workers, queued duplicates and mixtures of keys, " +
		"after which every item must be served and every call return; the same through the whole proxy and for a remote connection that is lost and comes back; a case is one item requested after a failure or stall")
	c.Assume("a call that does not return while nothing is outstanding at the remote and no goroutine of the proxy can run is lost forever")
	var wg sync.WaitGroup
	run := func(f func()) {
		wg.Add(1)
		go func() { defer wg.Done(); f() }()
	}
	longLived(c, c.Rand("long"), 1, c.N(40000, 600000), 7)
	c.Need("long_lived_items", 40000)
	// stalls take real time, so several run side by side
	for i := 0; i < c.N(8, 24); i++ {
		r := c.Rand("stall", i)
		i := i
		run(func() { c11Stall(c, r, i) })
	}
	for i := 0; i < c.N(3, 8); i++ {
		r := c.Rand("proxystall", i)
		i := i
		run(func() { c11ProxyStall(c, r, i) })
	}
	for i := 0; i < c.N(40, 800) && !c.Stopped(); i++ {
		c11Fail(c, c.Rand("fail", i), i)
	}
	for i := 0; i < c.N(8, 100) && !c.Stopped(); i++ {
		c11Proxy(c, c.Rand("proxy", i), i)
	}
	for i := 0; i < c.N(16, 200) && !c.Stopped(); i++ {
		c11Remote(c, c.Rand("remote", i), i)
	}
	wg.Wait()
	c.Need("recovered_items", 1000)
	c.Need("cut_requests", 20)
}

func c11Fail(c *Ctx, r *rand.Rand, e int) {
	clock := new(int64)
	b := newLogBackend(rand.New(rand.NewSource(r.Int63())), clock)
	failing := int32(1)
	gate := make(chan struct{})
	b.hold = func(kind byte, key string) {
		if atomic.LoadInt32(&failing) == 1 {
			<-gate
		}
	}
	mode := 1 + r.Intn(2)
	b.fail = func(*rand.Rand, byte, string) int {
		if atomic.LoadInt32(&failing) == 1 {
			return mode
		}
		return 0
	}
	b.empty = func(kind byte, key string) bool { return strings.HasPrefix(key, "empty") }
	rq := requester.New([]int{1, 2, 8}[r.Intn(3)], b, b)
	rq.Start()
	var qs []*rreq
	keys := map[string]*rreq{}
	for i := 0; i < 1+r.Intn(40); i++ {
		q := genReq(r, 1)
		qs = append(qs, q)
		keys[string(q.kind)+q.key()] = q
	}
	c.Guard("requests around a failure", b.Inflight, func() {
		for round := 0; round < 1+r.Intn(4); round++ {
			var wg sync.WaitGroup
			for _, q := range qs {
				wg.Add(1)
				go func(q rreq) { defer wg.Done(); doReq(rq, clock, &q); judgeOwn(c, b, &q) }(*q)
			}
			if round == 0 {
				time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
				close(gate)
			}
			wg.Wait()
		}
		atomic.StoreInt32(&failing, 0)
		for _, k := range sortedReqs(keys) {
			q := *keys[k]
			doReq(rq, clock, &q)
			c.Eval(fmt.Sprint(e, k))
			c.Count("recovered_items", 1)
			if q.err != nil {
				c.Violate("failure-sticks", "%c %q still fails after the remote works again: %v", q.kind, q.a1, q.err)
			} else {
				judgeOwn(c, b, &q)
			}
		}
		// a single failing item does not disturb others
		var other *rreq
		for other == nil || keys[string(other.kind)+other.key()] != nil {
			other = genReq(r, 1000)
		}
		doReq(rq, clock, other)
		if other.err != nil {
			c.Violate("failure-spreads", "%c %q fails: %v", other.kind, other.a1, other.err)
		}
	})
	rq.Stop()
}

func sortedReqs(m map[string]*rreq) []string {
	var l []string
	for k := range m {
		l = append(l, k)
	}
	sort.Strings(l)
	return l
}

// c11Stall holds every backend call until requests have timed out, then releases.
func c11Stall(c *Ctx, r *rand.Rand, e int) {
	clock := new(int64)
	b := newLogBackend(rand.New(rand.NewSource(r.Int63())), clock)
	gate := make(chan struct{})
	b.hold = func(kind byte, key string) { <-gate }
	failAfter := r.Intn(3) == 0 // the stalled calls end with an error
	stalled := int32(1)
	b.fail = func(*rand.Rand, byte, string) int {
		if failAfter && atomic.LoadInt32(&stalled) == 1 {
			return 1
		}
		return 0
	}
	workers := 1 + r.Intn(4)
	rq := requester.New(workers, b, b)
	rq.Start()
	n := workers + 2 + r.Intn(20)
	var reqs []*rreq
	keys := map[string]*rreq{}
	for i := 0; i < n; i++ {
		q := genReq(r, []int{1, 3, 12}[e%3])
		reqs = append(reqs, q)
		keys[string(q.kind)+q.key()] = q
	}
	b.empty = func(kind byte, key string) bool { return strings.HasPrefix(key, "empty") }
	var wg sync.WaitGroup
	var timeouts int64
	for _, q := range reqs {
		wg.Add(1)
		go func(q rreq) {
			defer wg.Done()
			doReq(rq, clock, &q)
			if q.err != nil {
				atomic.AddInt64(&timeouts, 1)
			}
		}(*q)
		time.Sleep(time.Millisecond)
	}
	// stall until some client gave up (the proxy's limit is 20 s)
	t0 := time.Now()
	for atomic.LoadInt64(&timeouts) == 0 && time.Since(t0) < 40*time.Second && !c.Stopped() {
		time.Sleep(100 * time.Millisecond)
	}
	time.Sleep(1500 * time.Millisecond) // the others of the same age, too
	c.Count("stall_timeouts", atomic.LoadInt64(&timeouts))
	atomic.StoreInt32(&stalled, 0)
	close(gate)
	if !c.Guard("requests outstanding during a stall", b.Inflight, wg.Wait) {
		return
	}
	if !c.Guard("requests after a stall", b.Inflight, func() {
		for pass := 0; pass < 2; pass++ {
			for _, k := range sortedReqs(keys) {
				q := *keys[k]
				doReq(rq, clock, &q)
				c.Eval(fmt.Sprint("stall", e, k))
				c.Count("recovered_items", 1)
				if q.err != nil {
					c.Violate("stall-sticks", "%c %q still fails after a stall is over (workers %d, %d requests, %d timed out): %v", q.kind, q.a1, workers, n, timeouts, q.err)
					if c.Stopped() {
						return
					}
				} else {
					judgeOwn(c, b, &q)
				}
			}
		}
		// all workers are still there: as many new slow items as workers complete together
		var in, maxIn int64
		done := make(chan struct{})
		var w2 sync.WaitGroup
		gate2 := make(chan struct{})
		b.mu.Lock()
		b.hold = func(kind byte, key string) {
			if x := atomic.AddInt64(&in, 1); x > atomic.LoadInt64(&maxIn) {
				atomic.StoreInt64(&maxIn, x)
			}
			if atomic.LoadInt64(&in) == int64(workers) {
				select {
				case <-done:
				default:
					close(done)
				}
			}
			<-gate2
		}
		b.mu.Unlock()
		for i := 0; i < workers; i++ {
			w2.Add(1)
			go func(i int) {
				defer w2.Done()
				q := rreq{kind: 'F', a1: fmt.Sprintf("fresh-%d", i)}
				doReq(rq, clock, &q)
				if q.err != nil {
					c.Violate("stall-sticks", "a fresh item fails after a stall is over: %v", q.err)
				}
			}(i)
		}
		select {
		case <-done:
			c.Count("worker_pools_intact", 1)
		case <-time.After(60 * time.Second):
			c.Violate("capacity-lost", "after a stall only %d of %d workers take requests", atomic.LoadInt64(&maxIn), workers)
		}
		close(gate2)
		w2.Wait()
	}) {
		return
	}
	rq.Stop()
	c.Sample(fmt.Sprintf("stall %d: %d workers, %d requests on %d items, %d failed during the stall; all served afterwards", e, workers, n, len(keys), timeouts))
}

// c11ProxyStall: the same through sessions of the whole proxy.
func c11ProxyStall(c *Ctx, r *rand.Rand, e int) {
	v := newVolume(r, cfgAll[r.Intn(8)], "/enc")
	randTree(r, v, 8, 8, 5000)
	fs := newMemFS()
	fs.record = false
	fs.Load(v)
	h, err := openHandlers(v, fs, 1+r.Intn(3))
	if err != nil {
		c.Violate("open-failed", "a valid volume does not open: %v", err)
		return
	}
	gate := make(chan struct{})
	fs.Before = func(op, p string) error { <-gate; return nil }
	var all []*Node
	v.Walk(func(n *Node) { all = append(all, n) })
	access := func(view View, n *Node) error {
		if n.Dir {
			l, err := view.List(n.Path)
			if err == nil {
				if d := listingDiff(l, n.Kids, true); d != "" {
					c.Violate("wrong-answer", "%q: %s", n.Path, d)
				}
			}
			return err
		}
		b, err := view.Read(n.Path)
		if err == nil && !eqb(b, n.PT) {
			c.Violate("wrong-answer", "%q: %s", n.Path, diffDesc(b, n.PT))
		}
		return err
	}
	var wg sync.WaitGroup
	var fails int64
	for s := 0; s < 10; s++ {
		view := viewOf(0, h, 0)
		n := all[r.Intn(len(all))]
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer view.Close()
			if access(view, n) != nil {
				atomic.AddInt64(&fails, 1)
			}
		}()
	}
	t0 := time.Now()
	for atomic.LoadInt64(&fails) == 0 && time.Since(t0) < 23*time.Second {
		time.Sleep(50 * time.Millisecond)
	}
	time.Sleep(time.Second)
	c.Count("proxy_stall_timeouts", atomic.LoadInt64(&fails))
	close(gate)
	if !c.Guard("sessions during a stall", fs.Inflight, wg.Wait) {
		return
	}
	c.Guard("sessions after a stall", fs.Inflight, func() {
		view := viewOf(0, h, 0)
		defer view.Close()
		for _, n := range all {
			c.Eval(fmt.Sprint("proxystall", e, n.Path))
			c.Count("recovered_items", 1)
			if err := access(view, n); err != nil {
				c.Violate("stall-sticks", "proxy: %q still fails after a stall is over: %v", n.Path, err)
				if c.Stopped() {
					return
				}
			}
		}
	})
}

// c11Proxy: every remote call fails for a while; afterwards everything is served.
func c11Proxy(c *Ctx, r *rand.Rand, e int) {
	v := newVolume(r, cfgAll[e%len(cfgAll)], "/enc")
	randTree(r, v, 10, 12, 5000)
	fs := newMemFS()
	fs.record = false
	fs.Load(v)
	h, err := openHandlers(v, fs, []int{1, 4, 32}[r.Intn(3)])
	if err != nil {
		c.Violate("open-failed", "a valid volume does not open: %v", err)
		return
	}
	rate := int32(0)
	fs.Before = func(op, p string) error {
		x := atomic.LoadInt32(&rate)
		if x == 1 || (x == 2 && time.Now().UnixNano()%3 == 0) {
			return injected(p)
		}
		return nil
	}
	var all []*Node
	v.Walk(func(n *Node) { all = append(all, n) })
	c.Guard("sessions around failures", fs.Inflight, func() {
		for phase := 0; phase < 4; phase++ {
			atomic.StoreInt32(&rate, int32(1+phase%2))
			var wg sync.WaitGroup
			for s := 0; s < 6; s++ {
				view := viewOf(0, h, 0)
				sr := rand.New(rand.NewSource(r.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					defer view.Close()
					for k := 0; k < 5; k++ {
						n := all[sr.Intn(len(all))]
						_, _ = view.Read(n.Path)
						_, _ = view.List(n.Path)
						_, _ = view.Stat(n.Path)
					}
				}()
			}
			wg.Wait()
			atomic.StoreInt32(&rate, 0)
			view := viewOf(0, h, 0)
			for k := 0; k < 6 || phase == 3 && k < len(all); k++ {
				n := all[k%len(all)]
				if phase < 3 {
					n = all[r.Intn(len(all))]
				}
				c.Eval(fmt.Sprint("proxyfail", e, phase, n.Path))
				c.Count("recovered_items", 1)
				if n.Dir {
					l, err := view.List(n.Path)
					if err != nil {
						c.Violate("failure-sticks", "proxy: list %q fails after the remote works again: %v", n.Path, err)
					} else if d := listingDiff(l, n.Kids, true); d != "" {
						c.Violate("wrong-answer", "list %q: %s", n.Path, d)
					}
				} else if b, err := view.Read(n.Path); err != nil || !eqb(b, n.PT) {
					c.Violate("failure-sticks", "proxy: read %q after the remote works again: %v %s", n.Path, err, diffDesc(b, n.PT))
				}
			}
			view.Close()
		}
	})
}

// longLived: one requester that lives long: tens of thousands of different items, more
// requests waiting than its queue holds, then the same items again. Every first fetch of
// an item whose number is divisible by failEvery fails, and the item must be served when
// asked for again. Each item is fetched once, or once more after a failure.
func longLived(c *Ctx, r *rand.Rand, workers, items, failEvery int) {
	clock := new(int64)
	b := newLogBackend(rand.New(rand.NewSource(r.Int63())), clock)
	b.fail = func(_ *rand.Rand, kind byte, key string) int {
		if failEvery == 0 || b.perKey[string(kind)+key] > 1 {
			return 0
		}
		n := 0
		_, _ = fmt.Sscanf(key, "item%d", &n)
		if n%failEvery == 0 {
			return 1 + n/failEvery%2
		}
		return 0
	}
	rq := requester.New(workers, b, b)
	rq.Start()
	iv := randBytes(r, 16)
	mk := func(n int) *rreq {
		return &rreq{kind: "FDN"[n%3], a1: fmt.Sprintf("item%d", n), iv: iv}
	}
	one := func(n int, again bool) {
		for try := 0; ; try++ {
			q := mk(n)
			doReq(rq, clock, q)
			c.Count("long_lived_requests", 1)
			if q.err == nil {
				judgeOwn(c, b, q)
				return
			}
			if failEvery == 0 || n%failEvery != 0 || again {
				c.Violate("spurious-failure", "after %d different items: %c %q failed without any backend failure: %v", atomic.LoadInt64(clock), q.kind, q.a1, q.err)
				return
			}
			if try > 0 {
				c.Violate("failure-sticks", "after %d different items: %c %q still fails although the remote works again: %v", atomic.LoadInt64(clock), q.kind, q.a1, q.err)
				return
			}
		}
	}
	if !c.Guard("a long-lived requester", b.Inflight, func() {
		var wg sync.WaitGroup
		var next int64
		for g := 0; g < 24; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for !c.Stopped() {
					n := int(atomic.AddInt64(&next, 1)) - 1
					if n >= items {
						return
					}
					one(n, false)
				}
			}()
		}
		wg.Wait()
		// more requests at once than the queue holds
		for g := 0; g < 3000; g++ {
			wg.Add(1)
			n := items + g
			if failEvery != 0 && n%failEvery == 0 {
				n = 1
			}
			go func() {
				defer wg.Done()
				one(n, true)
			}()
		}
		wg.Wait()
		for k := 0; k < items/3 && !c.Stopped(); k++ {
			one(r.Intn(items), true)
		}
	}) {
		return
	}
	rq.Stop()
	c.Count("long_lived_items", int64(items))
	if c.Stopped() {
		return
	}
	b.mu.Lock()
	defer b.mu.Unlock()
	for n := 0; n < items; n++ {
		q := mk(n)
		want := 1
		if failEvery != 0 && n%failEvery == 0 {
			want = 2
		}
		c.Eval(fmt.Sprint("long", n))
		if got := b.perKey[string(q.kind)+q.key()]; got != want {
			c.Violate("fetched-again", "%c %q was fetched %d times, want %d, among %d items (workers %d)", q.kind, q.a1, got, want, items, workers)
			return
		}
	}
}

// heldWorkers: every worker waits for the remote for several seconds; what is asked for
// meanwhile is served when the remote answers.
func heldWorkers(c *Ctx, r *rand.Rand, hold time.Duration) {
	clock := new(int64)
	b := newLogBackend(rand.New(rand.NewSource(r.Int63())), clock)
	workers := 1 + r.Intn(3)
	gate := make(chan struct{})
	var in int64
	b.hold = func(kind byte, key string) {
		if strings.HasPrefix(key, "slow") {
			atomic.AddInt64(&in, 1)
			<-gate
		}
	}
	rq := requester.New(workers, b, b)
	rq.Start()
	var wg sync.WaitGroup
	ask := func(q *rreq) {
		wg.Add(1)
		go func() {
			defer wg.Done()
			doReq(rq, clock, q)
			c.Eval(fmt.Sprint("held", q.a1))
			c.Count("asked_while_workers_wait", 1)
			if q.err != nil {
				c.Violate("spurious-failure", "%c %q failed although the remote only took %v for each of %d calls: %v", q.kind, q.a1, hold, workers, q.err)
				return
			}
			judgeOwn(c, b, q)
		}()
	}
	for k := 0; k < workers; k++ {
		ask(&rreq{kind: "FDN"[r.Intn(3)], a1: fmt.Sprint("slow", k), iv: randBytes(r, 16)})
	}
	for t0 := time.Now(); atomic.LoadInt64(&in) < int64(workers) && time.Since(t0) < 5*time.Second; {
		time.Sleep(time.Millisecond)
	}
	for k := 0; k < 40; k++ {
		ask(&rreq{kind: "FDN"[r.Intn(3)], a1: fmt.Sprint("other", r.Intn(9)), iv: []byte("0123456789abcdef")})
	}
	time.Sleep(hold)
	close(gate)
	c.Guard("requests that waited for a worker", b.Inflight, wg.Wait)
	rq.Stop()
}
