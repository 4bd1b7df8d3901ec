package main

import (
	"fmt"
	"math/rand"
	"path"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/flawedmatrix/gocryptsftp/filetree"
)

func init() { register("C16", &Check{Run: runC16}) }

// failLog records the remote calls that failed on purpose.
type failLog struct {
	mu    sync.Mutex
	byKey map[string][]ival // remote path -> interval
	n     int64
}

func (l *failLog) add(p string, a, b int64) {
	l.mu.Lock()
	p = path.Clean(p)
	l.byKey[p] = append(l.byKey[p], ival{a, b})
	l.n++
	l.mu.Unlock()
}

// deps lists the remote objects a request for a node may depend on.
func deps(v *Volume, n *Node) []string {
	out := []string{n.CPath}
	for d := n; d != nil; d = d.Parent {
		if d.Dir {
			out = append(out, d.CPath, path.Join(d.CPath, "gocryptfs.diriv"))
		}
	}
	return out
}

type sessReq struct {
	who        string
	op         byte // R, L, S; lower case: must fail
	n          *Node
	path       string
	start, end int64
	err        error
	wrong      string
}

// sessionEpisode runs many concurrent sessions against one proxy and judges each reply.
func sessionEpisode(c *Ctx, r *rand.Rand, e int, overSSH bool, requests int) bool {
	v := newVolume(r, cfgAll[e%len(cfgAll)], rootPaths[r.Intn(3)])
	randTree(r, v, 4+r.Intn(14), 6+r.Intn(20), 40000)
	// siblings and cousins with equal names and different contents
	dirs, _ := v.All()
	for i, d := range dirs {
		if i < 5 && !hasKid(d, "same") {
			v.File(d, "same", []byte(fmt.Sprintf("content of same in %d %s", i, strings.Repeat("x", i*1000))), nil)
		}
	}
	fs := newMemFS()
	fs.record = false
	fs.Load(v)
	var clock int64
	fl := &failLog{byKey: map[string][]ival{}}
	failRate := []int{0, 0, 50, 10}[r.Intn(4)]
	delayUs := []int{0, 400, 3000}[r.Intn(3)]
	var rmu sync.Mutex
	pr := rand.New(rand.NewSource(r.Int63()))
	draw := func(n int) int {
		if n <= 0 {
			return -1
		}
		rmu.Lock()
		defer rmu.Unlock()
		return pr.Intn(n)
	}
	var acc filetree.FSAccessor = fs
	var s *Sshd
	armed := int32(0)
	if overSSH {
		s = newSshd(fs, newSigner(r))
		defer s.Close()
		acc = newProvider(s, r)
		s.OnPacket = func(cn *SConn, k int, p SPkt) Action {
			a := Action{}
			if d := draw(delayUs); d > 0 && d%2 == 0 {
				a.Delay = time.Duration(d) * time.Microsecond
			}
			if atomic.LoadInt32(&armed) == 1 && p.Type != fxInit && p.Type != fxRealpath && draw(failRate*3) == 0 {
				t := atomic.AddInt64(&clock, 1)
				pp := p.Path
				if p.Handle != "" {
					cn.mu.Lock()
					pp = cn.open[p.Handle]
					cn.mu.Unlock()
				}
				a.Fail = []uint32{2, 3, 4, 5, 8}[draw(5)]
				fl.add(pp, t, t)
			}
			return a
		}
	} else {
		fs.Before = func(op, p string) error {
			a := atomic.AddInt64(&clock, 1)
			if d := draw(delayUs); d > 0 && d%2 == 0 {
				time.Sleep(time.Duration(d) * time.Microsecond)
			}
			if atomic.LoadInt32(&armed) == 1 && draw(failRate) == 0 {
				fl.add(p, a, atomic.AddInt64(&clock, 1))
				return injected(p)
			}
			return nil
		}
	}
	h, err := openHandlers(v, acc, []int{1, 2, 5, 32}[r.Intn(4)])
	if err != nil {
		c.Violate("start-failed", "%v", err)
		return false
	}
	atomic.StoreInt32(&armed, 1)
	var all []*Node
	v.Walk(func(n *Node) { all = append(all, n) })
	sessions := 2 + r.Intn(10)
	var mu sync.Mutex
	var done []*sessReq
	one := func(view View, who string, sr *rand.Rand) {
		n := all[sr.Intn(len(all))]
		q := &sessReq{who: who, n: n, path: n.Path}
		q.op = "RLS"[sr.Intn(3)]
		switch {
		case sr.Intn(8) == 0:
			q.path = path.Join(n.Path, "no-such")
			q.op = "rls"[sr.Intn(3)]
		case q.op == 'R' && n.Dir:
			q.op = "rLS"[sr.Intn(3)]
		case q.op == 'L' && !n.Dir:
			q.op = "RlS"[sr.Intn(3)]
		}
		q.start = atomic.AddInt64(&clock, 1)
		switch q.op {
		case 'R', 'r':
			var b []byte
			b, q.err = view.Read(q.path)
			if q.op == 'R' && q.err == nil && !eqb(b, n.PT) {
				q.wrong = diffDesc(b, n.PT)
				for _, o := range all {
					if !o.Dir && len(b) > 0 && eqb(b, o.PT) {
						q.wrong += fmt.Sprintf(" (the content of %q)", o.Path)
					}
				}
			}
		case 'L', 'l':
			var l []Entry
			l, q.err = view.List(q.path)
			if q.op == 'L' && q.err == nil {
				q.wrong = listingDiff(l, n.Kids, true)
			}
		case 'S', 's':
			var x Entry
			x, q.err = view.Stat(q.path)
			if q.op == 'S' && q.err == nil {
				q.wrong = entryDiff(x, nodeEntry(n), view.Kind() != "filetree" && n != v.Root)
			}
		}
		q.end = atomic.AddInt64(&clock, 1)
		mu.Lock()
		done = append(done, q)
		mu.Unlock()
	}
	if !c.Guard("concurrent sessions", fs.Inflight, func() {
		var wg sync.WaitGroup
		for k := 0; k < sessions; k++ {
			kind := k % 2
			view := viewOf(kind, h, []uint32{0, 1000, 32768, 100000}[r.Intn(4)])
			lanes := 1
			if kind == 1 {
				lanes = 1 + r.Intn(4) // several requests in flight in one session
			}
			var lw sync.WaitGroup
			for l := 0; l < lanes; l++ {
				sr := rand.New(rand.NewSource(r.Int63()))
				lw.Add(1)
				wg.Add(1)
				go func(l int) {
					defer wg.Done()
					defer lw.Done()
					for i := 0; i < requests/lanes; i++ {
						one(view, fmt.Sprintf("session %d lane %d (%s)", k, l, view.Kind()), sr)
					}
				}(l)
			}
			go func() { lw.Wait(); view.Close() }()
		}
		wg.Wait()
	}) {
		return false
	}
	// judge: windows of failures reach until the requests that ran at the time have returned
	var infl []ival
	for _, q := range done {
		infl = append(infl, ival{q.start, q.end})
	}
	win := map[string][]ival{}
	for p, l := range fl.byKey {
		for _, f := range l {
			end := f.b
			for _, q := range infl {
				if q.a <= f.b && q.b >= f.a && q.b > end {
					end = q.b
				}
			}
			win[p] = append(win[p], ival{f.a, end})
		}
	}
	overlapping := 0
	for _, q := range done {
		c.Eval(fmt.Sprint(e, overSSH, q.who, q.start))
		c.Count("requests", 1)
		if q.wrong != "" {
			c.Violate("wrong-reply", "%s: %c %q: %s (%d sessions, over ssh %v, delay %d us, fail 1/%d)", q.who, q.op, q.path, q.wrong, sessions, overSSH, delayUs, failRate)
		}
		if q.op >= 'a' {
			if q.err == nil {
				c.Violate("wrong-reply", "%s: %c %q succeeds although it must fail", q.who, q.op, q.path)
			}
			c.Count("requests_that_must_fail", 1)
			continue
		}
		if q.err != nil {
			ok := false
			for _, d := range deps(v, q.n) {
				for _, w := range win[path.Clean(d)] {
					if w.a <= q.end && w.b >= q.start {
						ok = true
					}
				}
			}
			c.Count("failed_requests", 1)
			if !ok {
				c.Violate("unexplained-failure", "%s: %c %q fails (%v) although no remote call for it failed (%d sessions, over ssh %v, delay %d us, fail 1/%d)", q.who, q.op, q.path, q.err, sessions, overSSH, delayUs, failRate)
			}
		} else {
			overlapping++
		}
	}
	c.Count("injected_failures", fl.n)
	c.Max("max_sessions", int64(sessions))
	if overSSH {
		c.Count("ssh_connections", int64(len(s.Conns())))
	}
	if e%20 == 0 {
		c.Sample(fmt.Sprintf("episode %d: %d sessions, over ssh %v, %d requests, delay %d us, %d remote calls failed", e, sessions, overSSH, len(done), delayUs, fl.n))
	}
	return true
}

func hasKid(d *Node, name string) bool {
	for _, k := range d.Kids {
		if k.Name == name {
			return true
		}
	}
	return false
}

func runC16(c *Ctx) {
	c.Rule("episodes of 2..11 concurrent client sessions (raw and pipelined library clients) reading, listing and statting a volume through one proxy over a memory remote or a real SSH/SFTP remote with random delays and failures, over perturbed schedules; " +
		"every reply is compared with the volume; every failure must be explained by a failed remote call on an object the request depends on; a case is one request")
	c.Assume("a request depends on its object and on the IV and listing of the directories on its path")
	for e := 0; e < c.N(180, 2500) && !c.Stopped(); e++ {
		if !sessionEpisode(c, c.Rand("mem", e), e, false, 50) {
			return
		}
	}
	for e := 0; e < c.N(80, 1200) && !c.Stopped(); e++ {
		if !sessionEpisode(c, c.Rand("ssh", e), e, true, 40) {
			return
		}
	}
	c.Need("requests", 8000)
	c.Need("injected_failures", 200)
	c.Need("failed_requests", 50)
}
