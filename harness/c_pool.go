package main

import (
	"fmt"
	"math/rand"
	"os"
	"sync"
	"sync/atomic"
	"time"

	"github.com/flawedmatrix/gocryptsftp/backend"
)

func init() {
	register("C14", &Check{Run: runC14})
	register("C15", &Check{Run: runC15})
}

// poolWorld is a plain remote tree for driving the backend provider directly.
type poolWorld struct {
	fs    *MemFS
	files []string
	dirs  []string
	data  map[string][]byte
	kids  map[string]map[string]int64
}

func newPoolWorld(r *rand.Rand) *poolWorld {
	w := &poolWorld{fs: newMemFS(), data: map[string][]byte{}, kids: map[string]map[string]int64{}}
	w.fs.record = false
	t := time.Unix(1200000000, 0)
	w.fs.mkdir("/r", 0755, t)
	w.dirs = append(w.dirs, "/r")
	w.kids["/r"] = map[string]int64{}
	for d := 0; d < 6; d++ {
		p := fmt.Sprintf("/r/d%d", d)
		w.fs.mkdir(p, 0755, t)
		w.dirs = append(w.dirs, p)
		w.kids[p] = map[string]int64{}
		w.kids["/r"][fmt.Sprintf("d%d", d)] = -1
		for f := 0; f < []int{0, 1, 3, 63, 64, 150}[d]; f++ {
			n := fmt.Sprintf("f%d", f)
			sz := 0
			if f < 4 {
				sz = []int{0, 1, 32768, 32769, 70000, 250000}[r.Intn(6)]
			}
			b := randBytes(r, sz)
			copy(b, p+"/"+n)
			w.fs.put(p+"/"+n, b, 0644, t)
			w.files = append(w.files, p+"/"+n)
			w.data[p+"/"+n] = b
			w.kids[p][n] = int64(sz)
		}
	}
	return w
}

type poolCall struct {
	op   byte
	path string
}

func (w *poolWorld) gen(r *rand.Rand, missing int) poolCall {
	q := poolCall{op: "RLS"[r.Intn(3)]}
	switch {
	case r.Intn(100) < missing:
		q.path = []string{"/r/none", "/r/d1/none", "/r/d0", "/r/d1/f0/x"}[r.Intn(4)]
		if q.op == 'L' && q.path == "/r/d0" {
			q.path = w.files[r.Intn(len(w.files))]
		}
	case q.op == 'L':
		q.path = w.dirs[r.Intn(len(w.dirs))]
	case q.op == 'S' && r.Intn(3) == 0:
		q.path = w.dirs[r.Intn(len(w.dirs))]
	default:
		q.path = w.files[r.Intn(len(w.files))]
	}
	return q
}

// do performs a call and returns its error and what is wrong with a success.
func (w *poolWorld) do(p *backend.Provider, q poolCall) (err error, wrong string) {
	switch q.op {
	case 'R':
		var b []byte
		b, err = p.ReadFile(q.path)
		if err == nil {
			if want, ok := w.data[q.path]; !ok {
				wrong = "succeeds although there is no such file"
			} else if !eqb(b, want) {
				wrong = "wrong data: " + diffDesc(b, want)
			}
		}
	case 'L':
		var l []os.FileInfo
		l, err = p.ReadDir(q.path)
		if err == nil {
			want, ok := w.kids[q.path]
			if !ok {
				wrong = "succeeds although there is no such directory"
				return
			}
			seen := map[string]bool{}
			for _, i := range l {
				sz, ok := want[i.Name()]
				if !ok || seen[i.Name()] || i.IsDir() != (sz == -1) || (sz >= 0 && i.Size() != sz) {
					wrong = fmt.Sprintf("wrong entry %q", i.Name())
				}
				seen[i.Name()] = true
			}
			if len(seen) != len(want) && wrong == "" {
				wrong = fmt.Sprintf("%d entries, want %d", len(seen), len(want))
			}
		}
	case 'S':
		var i os.FileInfo
		i, err = p.Stat(q.path)
		if err == nil {
			_, isDir := w.kids[q.path]
			b, isFile := w.data[q.path]
			if !isDir && !isFile {
				wrong = "succeeds although there is no such object"
			} else if i == nil || i.IsDir() != isDir || (isFile && i.Size() != int64(len(b))) {
				wrong = "wrong attributes"
			}
		}
	}
	return
}

func (w *poolWorld) exists(q poolCall) bool {
	_, d := w.kids[q.path]
	_, f := w.data[q.path]
	switch q.op {
	case 'R':
		return f
	case 'L':
		return d
	}
	return d || f
}

func runC14(c *Ctx) {
	c.Rule("episodes of 1..48 goroutines calling the backend provider over a real SSH/SFTP server that delays replies, fails requests and cuts connections; an automaton per connection watches every packet: an operation may only start when all packets of the previous one are answered and its handle is closed; " +
		"a case is one operation started on a connection that had served another")
	c.Assume("a connection is in use by a call from its first OPEN, OPENDIR or STAT packet until the reply to its last packet, all its handles closed")
	for e := 0; e < c.N(90, 600) && !c.Stopped(); e++ {
		r := c.Rand(e)
		w := newPoolWorld(r)
		s := newSshd(w.fs, newSigner(r))
		var killed sync.Map
		failRate := []int{0, 0, 40, 8}[r.Intn(4)]
		killRate := []int{0, 0, 0, 60}[r.Intn(4)]
		delayUs := []int{0, 300, 2000}[r.Intn(3)]
		var rmu sync.Mutex
		pr := rand.New(rand.NewSource(r.Int63()))
		s.OnPacket = func(cn *SConn, n int, p SPkt) Action {
			rmu.Lock()
			defer rmu.Unlock()
			a := Action{}
			if delayUs > 0 && pr.Intn(3) == 0 {
				a.Delay = time.Duration(pr.Intn(delayUs)) * time.Microsecond
			}
			if p.Type == fxClose && pr.Intn(2) == 0 {
				a.Delay = time.Duration(500+pr.Intn(2000)) * time.Microsecond
			}
			if p.Type == fxInit || p.Type == fxRealpath {
				return a
			}
			if failRate > 0 && pr.Intn(failRate) == 0 {
				a.Fail = []uint32{2, 3, 4, 5, 8}[pr.Intn(5)]
				c.Count("injected_failures", 1)
			} else if killRate > 0 && pr.Intn(killRate) == 0 {
				a.Kill = 1 + pr.Intn(4)
				killed.Store(cn.ID, true)
				c.Count("injected_cuts", 1)
			}
			return a
		}
		s.OnOverlap = func(cn *SConn, p SPkt, why string) {
			if _, k := killed.Load(cn.ID); k {
				// the reply was withheld on purpose
				return
			}
			c.Violate("shared-connection", "connection %d: %s %s starts while the connection is in use: %s (delay %d us, fail 1/%d, cut 1/%d)", cn.ID, p.Name, p.Path, why, delayUs, failRate, killRate)
		}
		p := newProvider(s, r)
		gs := []int{1, 2, 6, 16, 40, 48}[r.Intn(6)]
		ok := c.Guard("concurrent backend calls", noInflight, func() {
			var wg sync.WaitGroup
			for g := 0; g < gs; g++ {
				gr := rand.New(rand.NewSource(r.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 25; k++ {
						q := w.gen(gr, 15)
						err, wrong := w.do(p, q)
						if wrong != "" {
							c.Violate("wrong-answer", "%c %s: %s", q.op, q.path, wrong)
						}
						if err == nil {
							c.Count("calls_ok", 1)
						} else {
							c.Count("calls_failed", 1)
						}
					}
				}()
			}
			wg.Wait()
		})
		if !ok {
			return
		}
		for _, cn := range s.Conns() {
			cn.mu.Lock()
			u := cn.users
			np := len(cn.pkts)
			cn.mu.Unlock()
			for i := int64(0); i < u; i++ {
				key := ""
				if i > 0 {
					key = fmt.Sprint(e, cn.ID, i)
				}
				c.Eval(key)
			}
			c.Count("packets", int64(np))
			c.Max("max_calls_per_connection", u)
		}
		c.Count("connections", int64(len(s.Conns())))
		c.Max("max_live_connections", s.maxLive)
		if e%12 == 0 {
			c.Sample(fmt.Sprintf("episode %d: %d goroutines, %d connections, delay %d us, fail 1/%d, cut 1/%d", e, gs, len(s.Conns()), delayUs, failRate, killRate))
		}
		s.Close()
	}
	c.Need("packets", 20000)
	c.Need("injected_failures", 100)
	c.Need("max_live_connections", 16)
}

func runC15(c *Ctx) {
	c.Rule("phases against a real SSH/SFTP server: healthy calls mixed with failing ones, where the connections opened are counted against the concurrent calls; more than 32 calls at once, after which at most 32 connections may stay open; " +
		"connections cut at any packet, in idle or in use (TCP, only the sftp channel, in the middle of a reply), and the remote being away, where failed calls are counted against lost connections and dead connections must be closed; a case is one call")
	c.Assume("a connection counts as lost when the server cut it or its sftp channel")
	for e := 0; e < c.N(48, 300) && !c.Stopped(); e++ {
		c15Healthy(c, c.Rand("healthy", e), e)
	}
	for e := 0; e < c.N(4, 30) && !c.Stopped(); e++ {
		c15Burst(c, c.Rand("burst", e), e)
	}
	for e := 0; e < c.N(90, 600) && !c.Stopped(); e++ {
		c15Lost(c, c.Rand("lost", e), e)
	}
	c.Need("healthy_calls", 5000)
	c.Need("failing_calls_on_healthy_connections", 500)
	c.Need("lost_connections", 100)
	c.Need("bursts", 2)
}

// c15Healthy: connections opened over the whole phase never exceed the concurrency.
func c15Healthy(c *Ctx, r *rand.Rand, e int) {
	w := newPoolWorld(r)
	s := newSshd(w.fs, newSigner(r))
	defer s.Close()
	failRate := []int{0, 20, 4}[r.Intn(3)]
	var rmu sync.Mutex
	pr := rand.New(rand.NewSource(r.Int63()))
	s.OnPacket = func(cn *SConn, n int, p SPkt) Action {
		rmu.Lock()
		defer rmu.Unlock()
		a := Action{}
		if pr.Intn(4) == 0 {
			a.Delay = time.Duration(pr.Intn(1500)) * time.Microsecond
		}
		if failRate > 0 && p.Type != fxInit && p.Type != fxRealpath && pr.Intn(failRate) == 0 {
			a.Fail = []uint32{2, 3, 4, 8}[pr.Intn(4)]
		}
		return a
	}
	p := newProvider(s, r)
	gs := []int{1, 2, 3, 8, 20, 31, 32}[r.Intn(7)]
	calls := 40
	if e == 1 { // few connections, used very often
		gs, calls = 2, c.N(6000, 40000)
		s.OnPacket = nil
		failRate = 0
	}
	if !c.Guard("healthy calls", noInflight, func() {
		var wg sync.WaitGroup
		for g := 0; g < gs; g++ {
			gr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < calls; k++ {
					q := w.gen(gr, 25)
					err, wrong := w.do(p, q)
					if wrong != "" {
						c.Violate("wrong-answer", "%c %s: %s", q.op, q.path, wrong)
					}
					if err != nil {
						c.Count("failing_calls_on_healthy_connections", 1)
						if w.exists(q) && failRate == 0 {
							c.Violate("call-failed", "%c %s fails on a healthy remote: %v", q.op, q.path, err)
						}
					}
					c.Count("healthy_calls", 1)
					c.Eval(fmt.Sprint("healthy", e, q, k, err == nil))
				}
			}()
		}
		wg.Wait()
	}) {
		return
	}
	if n := len(s.Conns()); n > gs {
		c.Violate("connection-not-reused", "%d connections were opened for at most %d concurrent calls on a healthy remote (failing requests 1/%d)", n, gs, failRate)
	}
	c.Count("healthy_connections", int64(len(s.Conns())))
	if e%8 == 0 {
		c.Sample(fmt.Sprintf("healthy %d: %d goroutines, %d calls, %d connections, injected status failures 1/%d", e, gs, gs*calls, len(s.Conns()), failRate))
	}
}

// c15Burst: many calls at once, then quiet: at most 32 connections stay.
func c15Burst(c *Ctx, r *rand.Rand, e int) {
	w := newPoolWorld(r)
	s := newSshd(w.fs, newSigner(r))
	defer s.Close()
	n := 36 + r.Intn(30)
	var arrived int64
	gate := make(chan struct{})
	s.OnPacket = func(cn *SConn, k int, p SPkt) Action {
		if p.Type == fxOpen || p.Type == fxOpendir || p.Type == fxStat || p.Type == fxLstat {
			if atomic.AddInt64(&arrived, 1) == int64(n) {
				close(gate)
			}
			return Action{Wait: gate}
		}
		return Action{}
	}
	p := newProvider(s, r)
	var once sync.Once
	release := func() {
		once.Do(func() {
			defer func() { _ = recover() }()
			close(gate)
		})
	}
	t := time.AfterFunc(60*time.Second, release)
	if !c.Guard("a burst of calls", noInflight, func() {
		var wg sync.WaitGroup
		for g := 0; g < n; g++ {
			gr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				q := w.gen(gr, 0)
				if err, wrong := w.do(p, q); err != nil || wrong != "" {
					c.Violate("call-failed", "burst of %d: %c %s: %v %s", n, q.op, q.path, err, wrong)
				}
				c.Eval(fmt.Sprint("burst", e, g))
			}()
		}
		wg.Wait()
	}) {
		return
	}
	t.Stop()
	if len(s.Conns()) > n {
		c.Violate("connection-not-reused", "%d connections for %d concurrent calls", len(s.Conns()), n)
	}
	// surplus connections are closed
	t0 := time.Now()
	for s.Live() > 32 && time.Since(t0) < 30*time.Second {
		time.Sleep(5 * time.Millisecond)
	}
	if l := s.Live(); l > 32 {
		c.Violate("too-many-idle", "%d connections stay open 30 s after %d concurrent calls have finished", l, n)
	}
	c.Max("max_burst_connections", int64(len(s.Conns())))
	for last, n := s.Live(), 0; n < 20; n++ {
		time.Sleep(15 * time.Millisecond)
		if l := s.Live(); l != last {
			last, n = l, 0
		}
	}
	// and the ones kept are used: as many calls again open no further ones
	before := len(s.Conns())
	idle := s.Live()
	s.OnPacket = nil
	if !c.Guard("calls after a burst", noInflight, func() {
		var wg sync.WaitGroup
		for g := 0; g < int(idle); g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				q := poolCall{'S', "/r"}
				for k := 0; k < 5; k++ {
					if err, wrong := w.do(p, q); err != nil || wrong != "" {
						c.Violate("call-failed", "after a burst: %v %s", err, wrong)
					}
				}
			}()
		}
		wg.Wait()
	}) {
		return
	}
	if after := len(s.Conns()); after != before {
		c.Violate("connection-not-reused", "%d idle connections were open, yet %d concurrent calls opened %d more", idle, idle, after-before)
	}
	c.Count("bursts", 1)
}

// c15Lost: each lost connection fails at most one call, and is closed.
func c15Lost(c *Ctx, r *rand.Rand, e int) {
	w := newPoolWorld(r)
	s := newSshd(w.fs, newSigner(r))
	defer s.Close()
	mode := 1 + e%4
	period := []int{3, 7, 15, 40}[r.Intn(4)]
	var on int32
	var rmu sync.Mutex
	pr := rand.New(rand.NewSource(r.Int63()))
	killed := map[int]bool{}
	s.OnPacket = func(cn *SConn, n int, p SPkt) Action {
		rmu.Lock()
		defer rmu.Unlock()
		if atomic.LoadInt32(&on) == 1 && pr.Intn(period) == 0 {
			killed[cn.ID] = true
			return Action{Kill: mode}
		}
		return Action{}
	}
	p := newProvider(s, r)
	gs := []int{1, 2, 5, 12}[r.Intn(4)]
	var failed int64
	phase := func(calls int) bool {
		return c.Guard("calls while connections are cut", noInflight, func() {
			var wg sync.WaitGroup
			for g := 0; g < gs; g++ {
				gr := rand.New(rand.NewSource(r.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < calls; k++ {
						q := w.gen(gr, 0)
						err, wrong := w.do(p, q)
						if wrong != "" {
							c.Violate("wrong-answer", "%c %s while connections are cut (mode %d): %s", q.op, q.path, mode, wrong)
						}
						if err != nil {
							atomic.AddInt64(&failed, 1)
						}
						c.Eval(fmt.Sprint("lost", e, q, k))
					}
				}()
			}
			wg.Wait()
		})
	}
	lost := func() int64 {
		rmu.Lock()
		defer rmu.Unlock()
		return int64(len(killed))
	}
	if !phase(5) {
		return
	}
	atomic.StoreInt32(&on, 1)
	if !phase(20) {
		return
	}
	atomic.StoreInt32(&on, 0)
	var extra int64
	if e%3 == 0 {
		// the remote goes away completely; calls fail meanwhile
		atomic.StoreInt32(&s.down, 1)
		time.Sleep(10 * time.Millisecond)
		for _, cn := range s.Conns() {
			cn.mu.Lock()
			if !cn.dead {
				cn.dead = true
				_ = cn.nc.Close()
				rmu.Lock()
				killed[cn.ID] = true
				rmu.Unlock()
			}
			cn.mu.Unlock()
		}
		if e%2 == 0 {
			f0 := atomic.LoadInt64(&failed)
			if !phase(3) {
				return
			}
			if atomic.LoadInt64(&failed)-f0 != int64(3*gs) {
				c.Violate("wrong-answer", "a call succeeded while the remote was away")
			}
			extra = int64(3 * gs)
		}
		atomic.StoreInt32(&s.down, 0)
	}
	if !phase(20) {
		return
	}
	n := lost()
	c.Count("lost_connections", n)
	c.Count("calls_failed_by_a_lost_connection", failed-extra)
	if failed-extra > n {
		c.Violate("too-many-failures", "%d connections were lost (mode %d), but %d calls failed", n, mode, failed-extra)
	}
	if o := int64(len(s.Conns())); o > int64(gs)+n {
		c.Violate("connection-not-reused", "%d connections were opened for %d concurrent calls with %d connections lost", o, gs, n)
	}
	// calls enough to try every idle connection, all of them held at once
	if mode == 2 {
		open := func() int {
			k := 0
			for _, cn := range s.Conns() {
				rmu.Lock()
				d := killed[cn.ID]
				rmu.Unlock()
				if d && !cn.gone() {
					k++
				}
			}
			return k
		}
		t0 := time.Now()
		for round := 0; open() > 0 && (round < 20 || time.Since(t0) < 20*time.Second); round++ {
			if !phase(2) {
				return
			}
			time.Sleep(20 * time.Millisecond)
		}
		if k := open(); k > 0 {
			c.Violate("dead-connection-kept", "%d of %d connections whose sftp session is gone are still open although many calls were made since", k, n)
		}
		c.Count("dead_connections_closed", n)
	}
	if e%10 == 0 {
		c.Sample(fmt.Sprintf("lost %d: mode %d, %d goroutines, %d connections lost, %d calls failed, %d connections opened", e, mode, gs, n, failed-extra, len(s.Conns())))
	}
}
