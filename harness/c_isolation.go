package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/requester"
	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
)

func init() { register("C32", &Check{Run: runC32}) }

// stallSet is the set of objects whose remote calls are held.
type stallSet struct {
	mu   sync.Mutex
	keys map[string]bool
	gate chan struct{}
	in   int64
}

func newStallSet() *stallSet {
	return &stallSet{keys: map[string]bool{}, gate: make(chan struct{})}
}

func (s *stallSet) add(k string) { s.mu.Lock(); s.keys[k] = true; s.mu.Unlock() }
func (s *stallSet) has(k string) bool {
	s.mu.Lock()
	defer s.mu.Unlock()
	return s.keys[k]
}
func (s *stallSet) hold(k string) {
	if s.has(k) {
		atomic.AddInt64(&s.in, 1)
		<-s.gate
	}
}

// waitIn waits until n calls are held.
func (s *stallSet) waitIn(n int64, limit time.Duration) bool {
	t0 := time.Now()
	for atomic.LoadInt64(&s.in) < n {
		if time.Since(t0) > limit {
			return false
		}
		time.Sleep(time.Millisecond)
	}
	return true
}

const isolationLimit = 40 * time.Second

// isolated runs fn, which must not need anything that is held, and reports whether it
// ended in time.
func isolated(c *Ctx, what string, fn func()) bool {
	done := make(chan struct{})
	go func() { defer close(done); fn() }()
	t0 := time.Now()
	select {
	case <-done:
		c.Max("max_ms_while_stalled", time.Since(t0).Milliseconds())
		return true
	case <-time.After(isolationLimit):
		_, _, text := repoGoroutines(allStacks())
		c.Violate("held-up", "%s: not done after %v although only unrelated remote calls are slow\n%s", what, isolationLimit, clip(text, 3000))
		return false
	}
}

func runC32(c *Ctx) {
	c.Rule("some remote calls (fewer than there are workers) are held open, with many more requests waiting for the same items; requests for all other items, cached and not, of all kinds, by many concurrent callers, and cache clears must complete while they are held; " +
		"with every worker held, cached items must still be served; after the release every request ends with its own result; at the request layer, through sessions of the whole proxy over a memory remote and over SSH; a case is one request made while others are held")
	c.Assume(fmt.Sprintf("an unrelated request is held up when it has not ended after %v", isolationLimit))
	for e := 0; e < c.N(150, 2000) && !c.Stopped(); e++ {
		c32Requests(c, c.Rand("rq", e), e)
	}
	for e := 0; e < c.N(120, 1500) && !c.Stopped(); e++ {
		c32Moving(c, c.Rand("moving", e), e)
	}
	c.Need("served_while_stalls_begin", 5000)
	for e := 0; e < c.N(40, 500) && !c.Stopped(); e++ {
		c32Proxy(c, c.Rand("proxy", e), e)
	}
	for e := 0; e < c.N(25, 300) && !c.Stopped(); e++ {
		c32Connect(c, c.Rand("connect", e), e)
	}
	if os.Getenv("VH_BIN") != "" {
		for e := 0; e < c.N(4, 40) && !c.Stopped(); e++ {
			c32Program(c, c.Rand("program", e), e)
		}
		c.Need("program_served_while_stalled", 30)
	}
	c.Need("connections_stalled", 25)
	c.Need("served_while_connecting", 500)
	c.Need("served_while_stalled", 5000)
	c.Need("cached_served_with_all_workers_held", 200)
	c.Need("held_calls", 150)
	c.Need("proxy_served_while_stalled", 500)
}

func c32Requests(c *Ctx, r *rand.Rand, e int) {
	clock := new(int64)
	b := newLogBackend(rand.New(rand.NewSource(r.Int63())), clock)
	st := newStallSet()
	b.hold = func(kind byte, key string) { st.hold(string(kind) + key) }
	workers := []int{1, 2, 3, 5, 16, 40}[r.Intn(6)]
	rq := requester.New(workers, b, b)
	rq.Start()
	released := false
	release := func() {
		if !released {
			released = true
			close(st.gate)
		}
	}
	defer release()
	// items in the cache
	keys := map[string]bool{}
	var warm []*rreq
	fresh := func() *rreq {
		for {
			q := genReq(r, 60)
			if k := string(q.kind) + q.key(); !keys[k] {
				keys[k] = true
				return q
			}
		}
	}
	b.empty = func(kind byte, key string) bool { return strings.HasPrefix(key, "empty") }
	for i := 0; i < 8; i++ {
		q := fresh()
		if q.kind == 'N' && len(q.iv) != 16 {
			continue
		}
		doReq(rq, clock, q)
		if q.err != nil {
			c.Violate("spurious-failure", "%c %q fails: %v", q.kind, q.a1, q.err)
			return
		}
		warm = append(warm, q)
	}
	all := r.Intn(3) == 0 || workers == 1 // every worker is held
	s := workers
	if !all {
		s = 1 + r.Intn(workers-1)
	}
	var pend sync.WaitGroup
	var lateMu sync.Mutex
	var late []*rreq
	ask := func(q rreq) {
		pend.Add(1)
		go func() {
			defer pend.Done()
			doReq(rq, clock, &q)
			lateMu.Lock()
			late = append(late, &q)
			lateMu.Unlock()
		}()
	}
	var held []*rreq
	together := r.Intn(2) == 0 // all at once, with others for the same items in between
	for i := 0; i < s; i++ {
		q := fresh()
		st.add(string(q.kind) + q.key())
		held = append(held, q)
		ask(*q)
		if together {
			for k := r.Intn(4); k > 0; k-- {
				ask(*held[r.Intn(len(held))])
			}
			continue
		}
		if !st.waitIn(int64(i+1), isolationLimit) {
			c.Violate("held-up", "with %d of %d workers busy, request %d (%c %q) does not reach the remote", i, workers, i+1, q.kind, q.a1)
			return
		}
	}
	if together && !st.waitIn(int64(s), isolationLimit) {
		c.Violate("held-up", "of %d requests for different items that arrive together, only %d reach the remote, with %d workers", s, atomic.LoadInt64(&st.in), workers)
		return
	}
	c.Count("held_calls", int64(s))
	// A clear lets held items be fetched once more if someone asks for them again, and a
	// request that gets the ticket of a worker that moves on to such a call may wait for
	// it. So nobody asks again where the caches are cleared.
	clears := !all && r.Intn(3) == 0
	dups := r.Intn(60)
	if clears {
		dups = 0
		time.Sleep(100 * time.Millisecond)
	}
	for i := 0; i < dups; i++ {
		ask(*held[r.Intn(len(held))])
	}
	if r.Intn(2) == 0 {
		time.Sleep(time.Duration(r.Intn(3)) * time.Millisecond)
	}
	// requests that need none of the held calls
	callers := 1 + r.Intn(12)
	var lists [][]rreq
	for k := 0; k < callers; k++ {
		var l []rreq
		for i := 0; i < 6; i++ {
			if all || r.Intn(2) == 0 {
				l = append(l, *warm[r.Intn(len(warm))])
			} else if len(keys) < 900 && r.Intn(3) > 0 {
				l = append(l, *fresh())
			} else {
				l = append(l, rreq{kind: 'F', a1: fmt.Sprintf("other-%d", r.Intn(5))})
			}
		}
		lists = append(lists, l)
	}
	clearAt := r.Intn(6)
	if !isolated(c, fmt.Sprintf("%d callers with %d of %d workers held (%d more requests for held items, clears %v)", callers, s, workers, dups, clears), func() {
		var wg sync.WaitGroup
		for k, l := range lists {
			wg.Add(1)
			go func(k int, l []rreq) {
				defer wg.Done()
				for i := range l {
					q := &l[i]
					doReq(rq, clock, q)
					if q.err == nil {
						judgeOwn(c, b, q)
					} else if !clears {
						c.Violate("spurious-failure", "%c %q fails while %d of %d workers are held: %v", q.kind, q.a1, s, workers, q.err)
					}
					c.Eval(fmt.Sprint("rq", e, k, i))
					c.Count("served_while_stalled", 1)
					if all {
						c.Count("cached_served_with_all_workers_held", 1)
					}
					if clears && k == 0 && i == clearAt {
						rq.ClearCache()
						c.Count("clears_while_stalled", 1)
					}
				}
			}(k, l)
		}
		wg.Wait()
		if all && r.Intn(2) == 0 {
			rq.ClearCache() // does not wait for anything
			c.Count("clears_while_stalled", 1)
		}
	}) {
		return
	}
	release()
	if !c.Guard("requests for the held items after the release", b.Inflight, pend.Wait) {
		return
	}
	for _, q := range late {
		if q.err == nil {
			judgeOwn(c, b, q)
		}
		c.Count("late_results", 1)
	}
	rq.Stop()
	if e%40 == 0 {
		c.Sample(fmt.Sprintf("episode %d: %d of %d workers held, %d duplicates, %d callers, clears %v", e, s, workers, dups, callers, clears))
	}
}

// c32Proxy: sessions that wait for slow objects do not hold up other sessions.
// c32Moving: slow calls begin, with and without cache clears, while many callers wait
// for other, fast items in groups; fewer calls are slow than there are workers.
func c32Moving(c *Ctx, r *rand.Rand, e int) {
	clock := new(int64)
	b := newLogBackend(rand.New(rand.NewSource(r.Int63())), clock)
	st := newStallSet()
	b.hold = func(kind byte, key string) {
		if strings.HasPrefix(key, "slow") {
			st.hold("slow")
		}
	}
	st.add("slow")
	us := r.Intn(4) * 60
	b.delay = func(r *rand.Rand, kind byte, key string) time.Duration {
		return time.Duration(r.Intn(us+1)) * time.Microsecond
	}
	workers := []int{2, 2, 3, 5, 12}[r.Intn(5)]
	slow := 1 + r.Intn(workers-1)
	clears := e%3 == 0
	if clears {
		// a request that loses its ticket to a clear is made again, up to three times
		workers = []int{4, 7, 16}[r.Intn(3)]
		slow = 1 + r.Intn((workers-1)/3)
	}
	rq := requester.New(workers, b, b)
	rq.Start()
	released := false
	release := func() {
		if !released {
			released = true
			close(st.gate)
		}
	}
	defer release()
	callers, rounds := 4+r.Intn(12), 12
	var pend, wg sync.WaitGroup
	kinds := randBytes(r, slow)
	iv := randBytes(r, 16)
	at := map[int]int{}
	for k := 0; k < slow; k++ {
		at[r.Intn(callers*rounds)]++
	}
	var begun int64
	var mu sync.Mutex
	if !isolated(c, fmt.Sprintf("%d callers while %d calls of %d workers become slow (clears %v)", callers, slow, workers, clears), func() {
		for k := 0; k < callers; k++ {
			wg.Add(1)
			gr := rand.New(rand.NewSource(r.Int63()))
			go func(k int) {
				defer wg.Done()
				for i := 0; i < rounds; i++ {
					for n := at[k*rounds+i]; n > 0; n-- {
						j := int(atomic.AddInt64(&begun, 1)) - 1
						pend.Add(1)
						go func() {
							defer pend.Done()
							q := &rreq{kind: "FDN"[kinds[j]%3], a1: fmt.Sprint("slow", j), iv: iv}
							doReq(rq, clock, q)
							if q.err == nil {
								judgeOwn(c, b, q)
							} else if !clears {
								c.Violate("spurious-failure", "%c %q: %v", q.kind, q.a1, q.err)
							}
						}()
					}
					q := &rreq{kind: "FDN"[i%3], a1: fmt.Sprintf("fast%d", i), iv: iv}
					if gr.Intn(4) == 0 {
						q.a1 = fmt.Sprintf("fast%d-%d", i, k)
					}
					doReq(rq, clock, q)
					if q.err == nil {
						judgeOwn(c, b, q)
					} else if !clears {
						c.Violate("spurious-failure", "%c %q fails while other calls become slow: %v", q.kind, q.a1, q.err)
					}
					mu.Lock()
					c.Eval(fmt.Sprint("moving", e, k, i))
					mu.Unlock()
					c.Count("served_while_stalls_begin", 1)
					if clears && gr.Intn(8) == 0 {
						rq.ClearCache()
					}
				}
			}(k)
		}
		wg.Wait()
	}) {
		return
	}
	release()
	if !c.Guard("slow requests after the release", b.Inflight, pend.Wait) {
		return
	}
	rq.Stop()
}

func c32Proxy(c *Ctx, r *rand.Rand, e int) {
	v := newVolume(r, cfgAll[e%len(cfgAll)], rootPaths[r.Intn(3)])
	randTree(r, v, 8+r.Intn(6), 16+r.Intn(16), 20000)
	dirs, files := v.All()
	fs := newMemFS()
	fs.record = false
	fs.Load(v)
	st := newStallSet()
	overSSH := e%3 == 2
	var acc filetree.FSAccessor = fs
	if overSSH {
		s := newSshd(fs, newSigner(r))
		defer s.Close()
		acc = newProvider(s, r)
		s.OnPacket = func(cn *SConn, k int, p SPkt) Action {
			if p.Path != "" {
				st.hold(path.Clean(p.Path))
			}
			return Action{}
		}
	} else {
		fs.Before = func(op, p string) error { st.hold(path.Clean(p)); return nil }
	}
	workers := []int{2, 4, 32}[r.Intn(3)]
	h, err := openHandlers(v, acc, workers)
	if err != nil {
		c.Violate("start-failed", "%v", err)
		return
	}
	released := false
	release := func() {
		if !released {
			released = true
			close(st.gate)
		}
	}
	defer release()
	access := func(view View, n *Node, op int) (string, error) {
		switch {
		case op == 0:
			x, err := view.Stat(n.Path)
			if err != nil {
				return "", err
			}
			return entryDiff(x, nodeEntry(n), view.Kind() != "filetree" && n != v.Root), nil
		case n.Dir:
			l, err := view.List(n.Path)
			if err != nil {
				return "", err
			}
			return listingDiff(l, n.Kids, true), nil
		}
		b, err := view.Read(n.Path)
		if err == nil && !eqb(b, n.PT) {
			return diffDesc(b, n.PT), nil
		}
		return "", err
	}
	// slow objects: files, whose content is read only by those who open them, and whole
	// directories
	slow := map[*Node]bool{}
	var first []*Node
	n := 1 + r.Intn(min(workers-1, 5))
	for i := 0; i < n; i++ {
		var x *Node
		if r.Intn(3) > 0 && len(files) > 0 {
			x = files[r.Intn(len(files))]
		} else {
			x = dirs[1+r.Intn(len(dirs)-1)]
		}
		if slow[x] || under(slow, x) || covers(x, slow) {
			continue
		}
		slow[x] = true
		first = append(first, x)
	}
	// open the way to them first, so that the held calls are exactly theirs
	pre := viewOf(0, h, 0)
	for _, x := range first {
		if _, err := access(pre, x.Parent, 1); err != nil {
			c.Violate("spurious-failure", "list %q: %v", x.Parent.Path, err)
			return
		}
	}
	pre.Close()
	for _, x := range first {
		if x.Dir {
			st.add(path.Clean(x.CPath))
			st.add(path.Clean(path.Join(x.CPath, "gocryptfs.diriv")))
		} else {
			st.add(path.Clean(x.CPath))
		}
	}
	type lateRes struct {
		n   *Node
		op  string
		err error
	}
	var lateMu sync.Mutex
	var late []lateRes
	var pend sync.WaitGroup
	// A stat is no worker's call. Where the first request for an object is one, so are the
	// later ones: all calls that hold a worker have begun when the sessions start.
	statOnly := map[*Node]bool{}
	ask := func(x *Node) {
		view := viewOf(r.Intn(2), h, 0)
		op := r.Intn(3) // 0: stat
		if only, again := statOnly[x]; !again {
			statOnly[x] = op == 0
		} else if only {
			op = 0
		}
		pend.Add(1)
		go func() {
			defer pend.Done()
			defer view.Close()
			d, err := access(view, x, op)
			lateMu.Lock()
			late = append(late, lateRes{x, d, err})
			lateMu.Unlock()
		}()
	}
	together := r.Intn(2) == 0
	for i, x := range first {
		ask(x)
		if together && i < len(first)-1 {
			continue
		}
		if !st.waitIn(int64(i+1), isolationLimit) {
			c.Violate("held-up", "with %d of %d workers busy, the request for %q does not reach the remote", i, workers, x.Path)
			return
		}
	}
	c.Count("held_calls", int64(len(first)))
	for i := 0; i < r.Intn(12); i++ {
		ask(first[r.Intn(len(first))])
	}
	var free []*Node
	v.Walk(func(x *Node) {
		if !slow[x] && !under(slow, x) {
			free = append(free, x)
		}
	})
	sessions := 1 + r.Intn(6)
	var lists [][]*Node
	for k := 0; k < sessions; k++ {
		var l []*Node
		for i := 0; i < 8; i++ {
			l = append(l, free[r.Intn(len(free))])
		}
		lists = append(lists, l)
	}
	if !isolated(c, fmt.Sprintf("%d sessions with %d slow objects and %d workers (over ssh %v)", sessions, len(first), workers, overSSH), func() {
		var wg sync.WaitGroup
		for k, l := range lists {
			view := viewOf(k%2, h, 0)
			sr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func(k int, l []*Node) {
				defer wg.Done()
				defer view.Close()
				for i, x := range l {
					d, err := access(view, x, sr.Intn(3))
					if err != nil {
						c.Violate("spurious-failure", "%q fails while only others are slow: %v", x.Path, err)
					} else if d != "" {
						c.Violate("wrong-answer", "%q: %s", x.Path, d)
					}
					c.Eval(fmt.Sprint("proxy", e, k, i))
					c.Count("proxy_served_while_stalled", 1)
				}
			}(k, l)
		}
		wg.Wait()
	}) {
		return
	}
	release()
	if !c.Guard("sessions waiting for slow objects after the release", fs.Inflight, pend.Wait) {
		return
	}
	for _, l := range late {
		if l.err != nil {
			c.Violate("spurious-failure", "%q fails although the remote call only took long: %v", l.n.Path, l.err)
		} else if l.op != "" {
			c.Violate("wrong-answer", "%q: %s", l.n.Path, l.op)
		}
		c.Count("late_results", 1)
	}
	if e%10 == 0 {
		c.Sample(fmt.Sprintf("proxy episode %d: %d slow objects, %d workers, %d sessions, over ssh %v", e, len(first), workers, sessions, overSSH))
	}
}

// c32Connect: while the remote does not complete new connections, requests are served
// over the connections that are idle.
func c32Connect(c *Ctx, r *rand.Rand, e int) {
	v := newVolume(r, cfgAll[e%len(cfgAll)], rootPaths[r.Intn(3)])
	randTree(r, v, 6+r.Intn(6), 20+r.Intn(16), 20000)
	_, files := v.All()
	fs := newMemFS()
	fs.record = false
	fs.Load(v)
	s := newSshd(fs, newSigner(r))
	defer s.Close()
	st := newStallSet()
	s.OnPacket = func(cn *SConn, k int, p SPkt) Action {
		if p.Path != "" {
			st.hold(path.Clean(p.Path))
		}
		return Action{}
	}
	var refusing int32
	connGate := make(chan struct{})
	var stuck int64
	s.OnServe = func() {
		if atomic.LoadInt32(&refusing) != 0 {
			atomic.AddInt64(&stuck, 1)
			<-connGate
		}
	}
	released, opened := false, false
	release := func() {
		if !released {
			released = true
			close(st.gate)
		}
	}
	open := func() {
		if !opened {
			opened = true
			close(connGate)
		}
	}
	defer open()
	defer release()
	prov := newProvider(s, r)
	h, err := openHandlers(v, prov, 32)
	if err != nil {
		c.Violate("start-failed", "%v", err)
		return
	}
	type res struct {
		n   *Node
		b   []byte
		err error
	}
	read := func(n *Node) res {
		b, err := prov.ReadFile(n.CPath)
		return res{n, b, err}
	}
	// some connections are busy
	idle := 1 + r.Intn(5)
	var wg, waiting sync.WaitGroup
	var mu sync.Mutex
	var got []res
	background := func(w *sync.WaitGroup, n *Node) {
		w.Add(1)
		go func() {
			defer w.Done()
			x := read(n)
			mu.Lock()
			got = append(got, x)
			mu.Unlock()
		}()
	}
	perm := r.Perm(len(files))
	for i := 0; i < idle; i++ {
		st.add(path.Clean(files[perm[i]].CPath))
		background(&wg, files[perm[i]])
		if !st.waitIn(int64(i+1), isolationLimit) {
			c.Violate("held-up", "with %d calls in progress, call %d does not reach the remote", i, i+1)
			return
		}
	}
	// others need new ones, which take long
	atomic.StoreInt32(&refusing, 1)
	m := 1 + r.Intn(4)
	for i := 0; i < m; i++ {
		background(&waiting, files[perm[(idle+i)%len(perm)]])
	}
	for t0 := time.Now(); atomic.LoadInt64(&stuck) < int64(m); time.Sleep(time.Millisecond) {
		if time.Since(t0) > isolationLimit {
			c.Violate("held-up", "with %d calls in progress, only %d of %d further connections are attempted", idle, atomic.LoadInt64(&stuck), m)
			return
		}
	}
	c.Count("connections_stalled", int64(m))
	// the busy ones become idle
	what := fmt.Sprintf("%d connections free again while %d calls wait for new ones", idle, m)
	if !isolated(c, what, func() {
		release()
		wg.Wait()
	}) {
		return
	}
	through := r.Intn(2) == 0
	seeds := make([]int64, idle)
	for i := range seeds {
		seeds[i] = r.Int63()
	}
	if !isolated(c, what, func() {
		var ws sync.WaitGroup
		for k := 0; k < idle; k++ {
			ws.Add(1)
			go func(k int) {
				defer ws.Done()
				sr := rand.New(rand.NewSource(seeds[k]))
				var view View
				if through {
					view = viewOf(k%2, h, 0)
					defer view.Close()
				}
				for i := 0; i < 12; i++ {
					n := files[sr.Intn(len(files))]
					c.Eval(fmt.Sprint("connect", e, k, i))
					c.Count("served_while_connecting", 1)
					if through {
						b, err := view.Read(n.Path)
						if err != nil {
							c.Violate("spurious-failure", "%s: reading %q fails: %v", what, n.Path, err)
						} else if !eqb(b, n.PT) {
							c.Violate("wrong-answer", "%q: %s", n.Path, diffDesc(b, n.PT))
						}
						continue
					}
					switch sr.Intn(3) {
					case 0:
						i, err := prov.Stat(n.CPath)
						if err != nil || i.Size() != int64(len(n.CT)) {
							c.Violate("spurious-failure", "%s: stat of %q: %v", what, n.CPath, err)
						}
					case 1:
						l, err := prov.ReadDir(n.Parent.CPath)
						if err != nil || len(l) == 0 {
							c.Violate("spurious-failure", "%s: listing %q: %d entries, %v", what, n.Parent.CPath, len(l), err)
						}
					default:
						x := read(n)
						if x.err != nil || !eqb(x.b, n.CT) {
							c.Violate("spurious-failure", "%s: reading %q: %v", what, n.CPath, x.err)
						}
					}
				}
			}(k)
		}
		ws.Wait()
	}) {
		return
	}
	atomic.StoreInt32(&refusing, 0)
	open()
	if !c.Guard("calls that waited for a connection", fs.Inflight, waiting.Wait) {
		return
	}
	for _, x := range got {
		if x.err != nil || !eqb(x.b, x.n.CT) {
			c.Violate("spurious-failure", "%q: %d bytes, %v, although the remote only took long", x.n.CPath, len(x.b), x.err)
		}
		c.Count("late_results", 1)
	}
	if e%8 == 0 {
		c.Sample(fmt.Sprintf("connect episode %d: %d idle connections, %d calls waiting for new ones, through the proxy %v", e, idle, m, through))
	}
}

// under reports whether x lies in one of the nodes.
func under(set map[*Node]bool, x *Node) bool {
	for d := x.Parent; d != nil; d = d.Parent {
		if set[d] {
			return true
		}
	}
	return false
}

// covers reports whether one of the nodes lies in x.
func covers(x *Node, set map[*Node]bool) bool {
	for n := range set {
		for d := n.Parent; d != nil; d = d.Parent {
			if d == x {
				return true
			}
		}
	}
	return false
}

// c32Program: the running program; a client has several SFTP sessions on one connection,
// some of them idle, some waiting for a slow remote file; further sessions on the same
// connection and on others are served meanwhile.
func c32Program(c *Ctx, r *rand.Rand, e int) {
	w := newWorld(c, r, nil)
	defer w.Close()
	var args []string
	if r.Intn(3) == 0 {
		args = append(args, "-e")
	}
	_, files := w.v.All()
	slow := files[r.Intn(len(files))]
	st := newStallSet()
	w.sshd.OnPacket = func(cn *SConn, k int, p SPkt) Action {
		if p.Type == fxOpen {
			st.hold(path.Clean(p.Path))
		}
		return Action{}
	}
	released := false
	release := func() {
		if !released {
			released = true
			close(st.gate)
		}
	}
	defer release()
	p := w.up(args...)
	if p == nil {
		return
	}
	defer p.Kill()
	dial := func() *ssh.Client {
		cl, err := sshClient(w.User, ssh.Password(w.Password))
		if err != nil {
			c.Violate("session-lost", "login fails: %v", err)
			return nil
		}
		return cl
	}
	a := dial()
	if a == nil {
		return
	}
	defer a.Close()
	b := dial()
	if b == nil {
		return
	}
	defer b.Close()
	session := func(cl *ssh.Client) (View, error) {
		sc, err := sftp.NewClient(cl)
		if err != nil {
			return nil, err
		}
		return &libView{sc, func() { _ = sc.Close() }}, nil
	}
	st.add(path.Clean(slow.CPath))
	type res struct {
		b   []byte
		err error
	}
	waiting := make(chan res, 8)
	nslow, nidle := 1+r.Intn(3), r.Intn(3)
	what := fmt.Sprintf("program: %d sessions of one connection wait for a slow file, %d are idle", nslow, nidle)
	if !isolated(c, what, func() {
		for i := 0; i < nslow+nidle; i++ {
			v, err := session(a)
			if err != nil {
				c.Violate("session-lost", "%s: opening session %d: %v", what, i, err)
				return
			}
			if i < nslow {
				go func() {
					b, err := v.Read(slow.Path)
					waiting <- res{b, err}
				}()
			}
		}
	}) {
		return
	}
	if !st.waitIn(1, isolationLimit) {
		c.Violate("held-up", "%s: the slow request does not reach the remote", what)
		return
	}
	for i := 0; i < 6 && !c.Stopped(); i++ {
		cl := a
		if i%3 == 2 {
			cl = b
		}
		var seed = r.Int63()
		if !isolated(c, what, func() {
			sr := rand.New(rand.NewSource(seed))
			v, err := session(cl)
			if err != nil {
				c.Violate("session-lost", "%s: opening a further session: %v", what, err)
				return
			}
			defer v.Close()
			for k := 0; k < 6; k++ {
				f := files[sr.Intn(len(files))]
				if f == slow {
					continue
				}
				c.Eval(fmt.Sprint("program", e, i, f.Path))
				got, err := v.Read(f.Path)
				if err != nil || !bytes.Equal(got, f.PT) {
					c.Violate("wrong-answer", "%s: read %q: %v %s", what, f.Path, err, diffDesc(got, f.PT))
				}
				if l, err := v.List(f.Parent.Path); err != nil {
					c.Violate("wrong-answer", "%s: list %q: %v", what, f.Parent.Path, err)
				} else if x := listingDiff(l, f.Parent.Kids, false); x != "" {
					c.Violate("wrong-answer", "%s: list %q: %s", what, f.Parent.Path, x)
				}
				c.Count("program_served_while_stalled", 1)
			}
		}) {
			return
		}
	}
	release()
	isolated(c, what+"; released", func() {
		for i := 0; i < nslow; i++ {
			if x := <-waiting; x.err != nil || !bytes.Equal(x.b, slow.PT) {
				c.Violate("wrong-answer", "%s: the slow read ended with %v %s", what, x.err, diffDesc(x.b, slow.PT))
			}
		}
	})
}
