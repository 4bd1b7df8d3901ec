package main

import (
	"fmt"
	"io"
	"log"
	"math/rand"
	"sync"
	"sync/atomic"

	"github.com/flawedmatrix/gocryptsftp/backend"
)

func newProvider(s *Sshd, r *rand.Rand) *backend.Provider {
	return backend.NewProvider(s.Addr, s.clientConfig(newSigner(r)), log.New(io.Discard, "", 0))
}

// c11Remote: the remote connections are cut in the middle of requests; whatever a
// request returns as success is right, and afterwards everything is served again, with
// at most one failed call per lost connection.
func c11Remote(c *Ctx, r *rand.Rand, e int) {
	v := newVolume(r, cfgAll[e%len(cfgAll)], "/enc")
	randTree(r, v, 8, 12, 200000)
	// one directory that takes several READDIR packets
	big := v.Mkdir(v.Root, uniqueName(r, v.Root))
	for i := 0; i < 70+r.Intn(80); i++ {
		v.File(big, uniqueName(r, big), []byte{byte(i)}, nil)
	}
	fs := newMemFS()
	fs.record = false
	fs.Load(v)
	s := newSshd(fs, newSigner(r))
	defer s.Close()
	h, err := openHandlers(v, newProvider(s, r), []int{1, 3, 8}[r.Intn(3)])
	if err != nil {
		c.Violate("start-failed", "a healthy remote is refused: %v", err)
		return
	}
	var all []*Node
	v.Walk(func(n *Node) { all = append(all, n) })
	var kills, on, lost int64
	mode := 1 + e%4
	period := int64([]int{2, 3, 5, 9, 20}[r.Intn(5)])
	var seq int64
	s.OnPacket = func(cn *SConn, n int, p SPkt) Action {
		if atomic.LoadInt64(&on) == 0 {
			return Action{}
		}
		if atomic.AddInt64(&seq, 1)%period == 0 {
			atomic.AddInt64(&kills, 1)
			return Action{Kill: mode}
		}
		return Action{}
	}
	access := func(view View, n *Node) error {
		if n.Dir {
			l, err := view.List(n.Path)
			if err == nil {
				if d := listingDiff(l, n.Kids, true); d != "" {
					c.Violate("wrong-answer", "list %q answered with success although the connection was cut (mode %d): %s", n.Path, mode, d)
				}
			}
			return err
		}
		b, err := view.Read(n.Path)
		if err == nil && !eqb(b, n.PT) {
			c.Violate("wrong-answer", "read %q answered with success although the connection was cut (mode %d): %s", n.Path, mode, diffDesc(b, n.PT))
		}
		return err
	}
	none := func() int64 { return 0 }
	if !c.Guard("sessions while connections are cut", none, func() {
		atomic.StoreInt64(&on, 1)
		var wg sync.WaitGroup
		for k := 0; k < 1+r.Intn(6); k++ {
			view := viewOf(0, h, 0)
			sr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer view.Close()
				for i := 0; i < 8; i++ {
					n := all[sr.Intn(len(all))]
					if access(view, n) != nil {
						c.Count("cut_requests", 1)
					}
				}
			}()
		}
		wg.Wait()
		// and the whole remote goes away for a while
		if e%2 == 0 {
			atomic.StoreInt32(&s.down, 1)
			lost += int64(s.KillAll())
			view := viewOf(0, h, 0)
			for i := 0; i < 5; i++ {
				if access(view, all[r.Intn(len(all))]) != nil {
					c.Count("cut_requests", 1)
				}
			}
			view.Close()
			atomic.StoreInt32(&s.down, 0)
		}
		atomic.StoreInt64(&on, 0)
		lost += atomic.LoadInt64(&kills)
	}) {
		return
	}
	c.Guard("requests after the remote is back", none, func() {
		view := viewOf(0, h, 0)
		defer view.Close()
		budget := lost
		for pass := 0; pass < 2; pass++ {
			for _, n := range all {
				c.Eval(fmt.Sprint("remote", e, n.Path))
				c.Count("recovered_items", 1)
				for {
					err := access(view, n)
					if err == nil {
						break
					}
					budget--
					if budget < 0 || pass > 0 {
						c.Violate("cut-sticks", "%q still fails although the remote works again and %d connections were lost (mode %d, pass %d): %v", n.Path, lost, mode, pass, err)
						return
					}
				}
				if c.Stopped() {
					return
				}
			}
		}
	})
	c.Count("connections_cut", lost)
	if e < 2 {
		c.Sample(fmt.Sprintf("remote %d: cut mode %d every %d packets, %d connections lost, %d opened; %d items served afterwards", e, mode, period, lost, len(s.Conns()), len(all)))
	}
}
