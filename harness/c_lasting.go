package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"math/rand"
	"sync"
	"time"

	"golang.org/x/crypto/ssh"
)

func init() { register("C33", &Check{Run: runC33}) }

// lasting is one client of the running program that stays.
type lasting struct {
	c    *Ctx
	w    *World
	r    *rand.Rand
	what string
	cl   *ssh.Client
	rc   *RawClient
	bad  func(format string, a ...interface{})
}

func (l *lasting) connect() bool {
	cl, err := sshClient(l.w.User, ssh.Password(l.w.Password))
	if err != nil {
		l.bad("login: %v", err)
		return false
	}
	l.cl = cl
	return true
}

func (l *lasting) session() *RawClient {
	// what ordinary clients ask for before they ask for sftp
	asks := []string{"env", "pty-req", "auth-agent-req@openssh.com", "keepalive@openssh.com", "window-change"}
	n := 0
	if l.r.Intn(2) == 0 {
		n = 1 + l.r.Intn(4)
	}
	ch := session(l.cl, n == 0)
	if ch == nil {
		l.bad("no session channel")
		return nil
	}
	for ; n > 0; n-- {
		what, want := asks[l.r.Intn(len(asks))], l.r.Intn(4) > 0
		body := cat(sstr("LANG"), sstr("C.UTF-8"))
		if !l.answered("channel request "+what, func() error { _, err := ch.SendRequest(what, want, body); return err }) {
			return nil
		}
		if n == 1 && !l.answered("subsystem request after others", func() error {
			ok, err := ch.SendRequest("subsystem", true, sstr("sftp"))
			if err == nil && !ok {
				err = fmt.Errorf("refused")
			}
			return err
		}) {
			return nil
		}
	}
	rc, err := newRawClient(ch)
	if err != nil {
		l.bad("no sftp session: %v", err)
		return nil
	}
	return rc
}

// answered says whether the proxy answers, with yes or no, what is not a request for data.
func (l *lasting) answered(what string, ask func() error) bool {
	l.c.Count("other_requests", 1)
	l.c.Eval(fmt.Sprint(l.what, what))
	done := make(chan error, 1)
	go func() { done <- ask() }()
	select {
	case err := <-done:
		if err != nil {
			l.bad("%s: %v", what, err)
		}
		return err == nil
	case <-time.After(100 * time.Second):
		l.bad("%s: no answer for 100 s", what)
		return false
	}
}

func (l *lasting) file() *Node {
	_, files := l.w.v.All()
	return files[l.r.Intn(len(files))]
}

// use makes n requests of all kinds and compares the answers with the volume.
func (l *lasting) use(rc *RawClient, n int) bool {
	dirs, _ := l.w.v.All()
	for k := 0; k < n; k++ {
		l.c.Count("requests", 1)
		l.c.Eval(fmt.Sprint(l.what, k))
		if l.r.Intn(10) == 0 && !l.answered("keepalive", func() error {
			_, _, err := l.cl.SendRequest("keepalive@openssh.com", true, nil)
			return err
		}) {
			return false
		}
		if l.r.Intn(100) == 0 && !l.answered("channel that is not a session", func() error {
			_, _, err := l.cl.OpenChannel([]string{"direct-tcpip", "direct-streamlocal@openssh.com", "x"}[k%3], nil)
			if _, refused := err.(*ssh.OpenChannelError); err == nil || refused {
				return nil
			}
			return err
		}) {
			return false
		}
		switch l.r.Intn(4) {
		case 0:
			d := dirs[l.r.Intn(len(dirs))]
			x, _, err := rc.list(d.Path)
			if err != nil {
				l.bad("list %q: %v", d.Path, err)
				return false
			}
			if len(x) != len(d.Kids) {
				l.bad("list %q: %d entries, want %d", d.Path, len(x), len(d.Kids))
				return false
			}
		case 1:
			f := l.file()
			a, err := rc.attrReq(fxStat, f.Path)
			if err != nil || a.Size != uint64(len(f.PT)) {
				l.bad("stat %q: %v, size %d, want %d", f.Path, err, a.Size, len(f.PT))
				return false
			}
		default:
			f := l.file()
			b, err := rc.readAll(f.Path, 32768)
			if err != nil || !bytes.Equal(b, f.PT) {
				l.bad("read %q: %v %s", f.Path, err, diffDesc(b, f.PT))
				return false
			}
		}
	}
	return true
}

func (l *lasting) readHandle(rc *RawClient, h string, f *Node) bool {
	out := []byte{}
	for {
		b, eof, err := rc.readAt(h, uint64(len(out)), 32768)
		if err != nil {
			l.bad("read on a handle of %q: %v", f.Path, err)
			return false
		}
		if eof || len(b) == 0 {
			break
		}
		out = append(out, b...)
	}
	if !bytes.Equal(out, f.PT) {
		l.bad("read on a handle of %q: %s", f.Path, diffDesc(out, f.PT))
		return false
	}
	return true
}

func runC33(c *Ctx) {
	c.Rule("clients of the running program that stay: idle for seconds to minutes (logged in, with a session, with open handles), slow but steady, slow in taking replies, with thousands of requests, hundreds of open handles, hundreds of sessions on one connection one after the other and at once; " +
		"every answer is compared with the volume; a case is one request")
	c.Assume("idle times up to 200 s (quick) or 7 minutes (thorough) stand for longer ones")
	idle := func(k int) time.Duration {
		if c.Thorough {
			return []time.Duration{20, 70, 130, 190, 310, 420}[k%6] * time.Second
		}
		return []time.Duration{6, 12, 32, 63, 130, 200}[k%6] * time.Second
	}
	// After idle(4) only the clients that are idle for the longest time are left, so that the
	// connections to the remote are idle for more than a minute as well.
	for e := 0; e < c.N(1, 1) && !c.Stopped(); e++ {
		r := c.Rand("world", e)
		w := newWorld(c, r, nil)
		var args []string
		if r.Intn(3) == 0 {
			args = append(args, "-e")
		}
		p := w.up(args...)
		if p == nil {
			w.Close()
			return
		}
		kinds := []struct {
			name string
			n    int
			run  func(l *lasting, k int)
		}{
			{"idle without a session", 6, func(l *lasting, k int) {
				time.Sleep(idle(k))
				if rc := l.session(); rc != nil && l.use(rc, 20) {
					c.Count("idle_connections", 1)
				}
			}},
			{"idle in a session", 6, func(l *lasting, k int) {
				if rc := l.session(); rc != nil && l.use(rc, 5) {
					time.Sleep(idle(k))
					if l.use(rc, 20) {
						c.Count("idle_sessions", 1)
					}
				}
			}},
			{"idle with open files", 6, func(l *lasting, k int) {
				rc := l.session()
				if rc == nil {
					return
				}
				var hs []string
				var fs []*Node
				for j := 0; j < 6; j++ {
					f := l.file()
					h, err := rc.open(f.Path, 1)
					if err != nil {
						l.bad("open %q: %v", f.Path, err)
						return
					}
					hs, fs = append(hs, h), append(fs, f)
				}
				time.Sleep(idle(k))
				for j := range hs {
					if !l.readHandle(rc, hs[j], fs[j]) {
						return
					}
					c.Count("idle_handles", 1)
				}
				l.use(rc, 5)
			}},
			{"a request now and then", 6, func(l *lasting, k int) {
				if rc := l.session(); rc != nil {
					for t0 := time.Now(); time.Since(t0) < idle(4); time.Sleep(time.Duration(200+300*k) * time.Millisecond) {
						if !l.use(rc, 1) {
							return
						}
					}
					c.Count("steady_sessions", 1)
				}
			}},
			{"slow in taking replies", 3, func(l *lasting, k int) {
				if ch := session(l.cl, true); ch != nil {
					l.slowReader(ch, idle(2+k))
				}
			}},
			{"many requests in one session", 2, func(l *lasting, k int) {
				if rc := l.session(); rc != nil && l.use(rc, c.N(15000, 100000)) {
					c.Count("long_sessions", 1)
				}
			}},
			{"many open handles", 2, func(l *lasting, k int) { l.manyHandles(c.N(700, 3000)) }},
			{"sessions one after the other", 1, func(l *lasting, k int) {
				for j := 0; j < c.N(300, 2000) && !c.Stopped(); j++ {
					rc := l.session()
					if rc == nil || !l.use(rc, 3) {
						return
					}
					_ = rc.c.Close()
					c.Count("sessions_in_a_row", 1)
				}
			}},
			{"sessions at once", 1, func(l *lasting, k int) {
				var all []*RawClient
				for j := 0; j < c.N(120, 400); j++ {
					rc := l.session()
					if rc == nil {
						return
					}
					all = append(all, rc)
				}
				for round := 0; round < 2; round++ {
					for _, j := range l.r.Perm(len(all)) {
						if !l.use(all[j], 2) {
							return
						}
						c.Count("sessions_at_once", 1)
					}
					time.Sleep(2 * time.Second)
				}
			}},
		}
		var wg sync.WaitGroup
		for _, kd := range kinds {
			for k := 0; k < kd.n; k++ {
				kd, k := kd, k
				l := &lasting{c: c, w: w, r: c.Rand(kd.name, e, k), what: fmt.Sprint(kd.name, " ", k)}
				l.bad = func(format string, a ...interface{}) {
					if c.Stopped() {
						return
					}
					c.Violate("not-served", "client %s: %s", l.what, fmt.Sprintf(format, a...))
				}
				wg.Add(1)
				go func() {
					defer wg.Done()
					if l.connect() {
						kd.run(l, k)
						_ = l.cl.Close()
						c.Count("clients", 1)
					}
				}()
				if k == 0 && e == 0 {
					c.Sample(kd.name)
				}
			}
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		select {
		case <-done:
		case <-time.After(time.Duration(c.N(400, 700)) * time.Second):
			c.Violate("not-served", "clients that stay are not done in time\n%s", clip(p.Dump(), 4000))
		}
		if p.exited() {
			kind, cr := classifyCrash(p.err.String())
			c.Violate(kind, "the proxy ends (exit %d)\n%s", p.exit, cr)
		}
		p.Kill()
		w.Close()
	}
	for _, k := range []string{"idle_connections", "idle_sessions", "steady_sessions"} {
		c.Need(k, 5)
	}
	c.Need("other_requests", 2000)
	c.Need("idle_handles", 30)
	c.Need("slow_replies", 300)
	c.Need("long_sessions", 2)
	c.Need("handles_open_at_once", 700)
	c.Need("sessions_in_a_row", 200)
	c.Need("sessions_at_once", 200)
}

// slowReader asks for much more than the channel's window holds and takes the replies slowly.
func (l *lasting) slowReader(ch ssh.Channel, total time.Duration) {
	rc, err := newRawClient(ch)
	if err != nil {
		l.bad("no sftp session: %v", err)
		return
	}
	f := someFile(l.w, l.r)
	h, err := rc.open(f.Path, 1)
	if err != nil {
		l.bad("open %q: %v", f.Path, err)
		return
	}
	const n = 160
	offs := make([]uint64, n)
	for k := range offs {
		offs[k] = uint64(l.r.Intn(len(f.PT) + 1))
	}
	go func() {
		for k := range offs {
			_, _ = ch.Write(pkt(fxRead, cat(be32(uint32(1000+k)), sstr(h), be64(offs[k]), be32(32768))))
		}
	}()
	seen := map[uint32]bool{}
	for k := 0; k < n; k++ {
		t, b, err := readPkt(ch)
		if err != nil || len(b) < 4 {
			l.bad("reply %d of %d: %v", k, n, err)
			return
		}
		id := binary.BigEndian.Uint32(b)
		if id < 1000 || id >= 1000+n || seen[id] {
			l.bad("a reply with id %d", id)
			return
		}
		seen[id] = true
		off := offs[id-1000]
		want := f.PT[off:]
		if len(want) > 32768 {
			want = want[:32768]
		}
		if t == fxData {
			x := rd{b: b[4:]}
			if got := x.str(); got != string(want) {
				l.bad("read %q at %d: %s", f.Path, off, diffDesc([]byte(got), want))
				return
			}
		} else if len(want) != 0 {
			l.bad("read %q at %d: packet type %d", f.Path, off, t)
			return
		}
		l.c.Count("slow_replies", 1)
		l.c.Eval(fmt.Sprint(l.what, k))
		time.Sleep(total / n)
	}
	l.use(rc, 5)
}

func (l *lasting) manyHandles(n int) {
	rc := l.session()
	if rc == nil {
		return
	}
	type open struct {
		h   string
		f   *Node
		dir bool
	}
	var hs []open
	dirs, _ := l.w.v.All()
	for j := 0; j < n; j++ {
		if l.r.Intn(4) == 0 {
			d := dirs[l.r.Intn(len(dirs))]
			rep, err := rc.rt(fxOpendir, sstr(d.Path))
			if err != nil || rep.Type != fxHandle {
				l.bad("opendir %q with %d handles open: %v, packet type %d", d.Path, j, err, rep.Type)
				return
			}
			x := rd{b: rep.Body}
			hs = append(hs, open{x.str(), d, true})
			continue
		}
		f := l.file()
		h, err := rc.open(f.Path, 1)
		if err != nil {
			l.bad("open %q with %d handles open: %v", f.Path, j, err)
			return
		}
		hs = append(hs, open{h, f, false})
	}
	l.c.Max("handles_open_at_once", int64(len(hs)))
	for _, j := range l.r.Perm(len(hs)) {
		o := hs[j]
		l.c.Eval(fmt.Sprint(l.what, o.h))
		if !o.dir {
			if !l.readHandle(rc, o.h, o.f) {
				return
			}
		} else {
			got := 0
			for {
				rep, err := rc.rt(fxReaddir, sstr(o.h))
				if err != nil {
					l.bad("readdir on a handle of %q: %v", o.f.Path, err)
					return
				}
				if rep.Type != fxName {
					break
				}
				x := rd{b: rep.Body}
				got += int(x.u32())
			}
			if got != len(o.f.Kids) {
				l.bad("readdir on a handle of %q: %d entries, want %d", o.f.Path, got, len(o.f.Kids))
				return
			}
		}
		rc.close(o.h)
	}
}
