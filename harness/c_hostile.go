package main

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"golang.org/x/crypto/ssh"
)

func init() { register("C21", &Check{Run: runC21}) }

// hostile behaviours: each runs against the proxy and returns a function that ends it.
type hostile struct {
	name string
	run  func(w *World, r *rand.Rand) (release func())
}

func holdConns(ncs ...net.Conn) func() {
	return func() {
		for _, n := range ncs {
			_ = n.Close()
		}
	}
}

func dialProxy() net.Conn {
	nc, err := net.DialTimeout("tcp", proxyAddr, 10*time.Second)
	if err != nil {
		return nil
	}
	return nc
}

// sendHold connects n times, sends the bytes and stays.
func sendHold(n int, b func(i int) []byte) func(w *World, r *rand.Rand) func() {
	return func(w *World, r *rand.Rand) func() {
		var l []net.Conn
		for i := 0; i < n; i++ {
			if nc := dialProxy(); nc != nil {
				if x := b(i); len(x) > 0 {
					_ = nc.SetWriteDeadline(time.Now().Add(3 * time.Second))
					_, _ = nc.Write(x)
				}
				l = append(l, nc)
			}
		}
		return holdConns(l...)
	}
}

// partConn stops the SSH handshake after a number of bytes have been sent.
type partConn struct {
	net.Conn
	left int64
	hold chan struct{}
}

func (p *partConn) Write(b []byte) (int, error) {
	n := atomic.AddInt64(&p.left, -int64(len(b)))
	if n >= 0 {
		return p.Conn.Write(b)
	}
	k := n + int64(len(b))
	if k > 0 {
		_, _ = p.Conn.Write(b[:k])
	}
	<-p.hold
	return 0, io.ErrClosedPipe
}

// stopAt performs a real handshake but stops after so many bytes.
func stopAt(bytes func(r *rand.Rand) int64) func(w *World, r *rand.Rand) func() {
	return func(w *World, r *rand.Rand) func() {
		nc := dialProxy()
		if nc == nil {
			return func() {}
		}
		pc := &partConn{Conn: nc, left: bytes(r), hold: make(chan struct{})}
		go func() {
			cc, ch, rq, err := ssh.NewClientConn(pc, proxyAddr, &ssh.ClientConfig{User: w.User, Auth: []ssh.AuthMethod{ssh.Password(w.Password)}, HostKeyCallback: ssh.InsecureIgnoreHostKey()})
			if err == nil {
				cl := ssh.NewClient(cc, ch, rq)
				_, _, _ = cl.OpenChannel("session", nil)
			}
		}()
		time.Sleep(30 * time.Millisecond)
		return func() { close(pc.hold); _ = nc.Close() }
	}
}

// inside runs f on an authenticated connection and keeps the connection until released.
func inside(f func(w *World, r *rand.Rand, cl *ssh.Client)) func(w *World, r *rand.Rand) func() {
	return func(w *World, r *rand.Rand) func() {
		nc := dialProxy()
		if nc == nil {
			return func() {}
		}
		_ = nc.SetDeadline(time.Now().Add(20 * time.Second))
		cc, ch, rq, err := ssh.NewClientConn(nc, proxyAddr, &ssh.ClientConfig{User: w.User, Auth: []ssh.AuthMethod{ssh.Password(w.Password)}, HostKeyCallback: ssh.InsecureIgnoreHostKey()})
		if err != nil {
			return holdConns(nc)
		}
		_ = nc.SetDeadline(time.Time{})
		cl := ssh.NewClient(cc, ch, rq)
		done := make(chan struct{})
		go func() {
			defer close(done)
			f(w, r, cl)
		}()
		select {
		case <-done:
		case <-time.After(2 * time.Second):
		}
		return func() { _ = cl.Close(); _ = nc.Close() }
	}
}

func session(cl *ssh.Client, sub bool) ssh.Channel {
	ch, rq, err := cl.OpenChannel("session", nil)
	if err != nil {
		return nil
	}
	go ssh.DiscardRequests(rq)
	if sub {
		_, _ = ch.SendRequest("subsystem", true, sstr("sftp"))
	}
	return ch
}

// sftpRaw sends the packets on a fresh sftp channel, after the version exchange if init.
func sftpRaw(init bool, reply bool, pkts func(w *World, r *rand.Rand) [][]byte) func(w *World, r *rand.Rand) func() {
	return inside(func(w *World, r *rand.Rand, cl *ssh.Client) {
		ch := session(cl, true)
		if ch == nil {
			return
		}
		if init {
			_, _ = ch.Write(pkt(fxInit, be32(3)))
			if _, _, err := readPkt(ch); err != nil {
				return
			}
		}
		for _, p := range pkts(w, r) {
			if _, err := ch.Write(p); err != nil {
				return
			}
			if reply {
				ok := make(chan bool, 1)
				go func() { _, _, err := readPkt(ch); ok <- err == nil }()
				select {
				case x := <-ok:
					if !x {
						return
					}
				case <-time.After(300 * time.Millisecond):
				}
			}
		}
	})
}

// openFile opens and waits for the replies. Using a handle before the reply to the open
// has come makes pkg/sftp v1.10.0 race with itself (known finding, see c21Library).
func openFile(ch ssh.Channel, path string, replies int) {
	_, _ = ch.Write(pkt(fxOpen, cat(be32(1), sstr(path), be32(1), be32(0))))
	for i := 0; i < replies; i++ {
		if _, _, err := readPkt(ch); err != nil {
			return
		}
	}
}

// crashPart is the interesting part of the program's error output.
func crashPart(s string) string {
	if loc := crashRe.FindStringIndex(s); loc != nil {
		return clip(s[loc[0]:], 4000)
	}
	if len(s) > 3000 {
		s = s[len(s)-3000:]
	}
	return s
}

func someFile(w *World, r *rand.Rand) *Node {
	_, files := w.v.All()
	best := files[r.Intn(len(files))]
	for _, f := range files {
		if len(f.PT) > len(best.PT) && r.Intn(2) == 0 {
			best = f
		}
	}
	return best
}

func randPkt(w *World, r *rand.Rand) []byte {
	// only types pkg/sftp knows: the others are the known finding, see c21Library
	ts := []byte{1, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20, 200}
	t := ts[r.Intn(len(ts))]
	id := be32(uint32(r.Intn(5)))
	var body []byte
	for k := r.Intn(5); k > 0; k-- {
		switch r.Intn(7) {
		case 0:
			body = append(body, sstr(someFile(w, r).Path)...)
		case 1:
			body = append(body, sstr(fmt.Sprint(r.Intn(4)))...)
		case 2:
			body = append(body, be32(uint32(r.Intn(64)))...)
		case 3:
			body = append(body, be64(r.Uint64())...)
		case 4:
			body = append(body, be32(r.Uint32())...)
		case 5:
			body = append(body, randBytes(r, r.Intn(30))...)
		case 6:
			body = append(body, sstr("/")...)
		}
	}
	if t == 9 { // a truncated setstat is a known finding, too
		return pkt(t, cat(id, sstr(someFile(w, r).Path), be32(0)))
	}
	if r.Intn(6) == 0 {
		id = id[:r.Intn(4)]
	}
	return pkt(t, append(id, body...))
}

func hostiles() []hostile {
	id := "SSH-2.0-hostile\r\n"
	l := []hostile{
		{"connects and stays silent", sendHold(1, func(int) []byte { return nil })},
		{"sixty connections stay silent", sendHold(60, func(int) []byte { return nil })},
		{"part of a version line", sendHold(2, func(int) []byte { return []byte("SSH-2.0-ho") })},
		{"version line, then nothing", sendHold(2, func(int) []byte { return []byte(id) })},
		{"version line and a packet announced but not sent", sendHold(2, func(int) []byte { return append([]byte(id), 0, 0, 1, 0, 4) })},
		{"garbage", sendHold(4, func(i int) []byte { return randBytes(rand.New(rand.NewSource(int64(i))), 3000) })},
		{"garbage lines", sendHold(2, func(i int) []byte {
			return []byte("GET / HTTP/1.1\r\nHost: x\r\n\r\n")
		})},
		{"old protocol version", sendHold(1, func(int) []byte { return []byte("SSH-1.5-old\r\n") })},
		{"huge packet length", sendHold(1, func(int) []byte { return append([]byte(id), 0x7f, 0xff, 0xff, 0xff, 4) })},
		{"zero packet", sendHold(1, func(int) []byte { return append([]byte(id), 0, 0, 0, 0, 0, 0, 0, 0) })},
		{"connect and reset", func(w *World, r *rand.Rand) func() {
			for i := 0; i < 30; i++ {
				if nc := dialProxy(); nc != nil {
					_ = nc.(*net.TCPConn).SetLinger(0)
					_ = nc.Close()
				}
			}
			return func() {}
		}},
		{"stops in the key exchange", stopAt(func(r *rand.Rand) int64 { return 30 + r.Int63n(900) })},
		{"stops right after its version", stopAt(func(r *rand.Rand) int64 { return 12 })},
		{"stops in the middle of authentication", stopAt(func(r *rand.Rand) int64 { return 1000 + r.Int63n(500) })},
		{"finishes the key exchange and does not authenticate", func(w *World, r *rand.Rand) func() {
			nc := dialProxy()
			if nc == nil {
				return func() {}
			}
			hold := make(chan struct{})
			go func() {
				_, _, _, _ = ssh.NewClientConn(nc, proxyAddr, &ssh.ClientConfig{User: w.User, Auth: []ssh.AuthMethod{ssh.PasswordCallback(func() (string, error) { <-hold; return "", io.EOF })}, HostKeyCallback: ssh.InsecureIgnoreHostKey()})
			}()
			time.Sleep(50 * time.Millisecond)
			return func() { close(hold); _ = nc.Close() }
		}},
		{"wrong passwords", func(w *World, r *rand.Rand) func() {
			for i := 0; i < 5; i++ {
				_, _ = sshClient(w.User, ssh.Password("no"))
			}
			return func() {}
		}},
		{"authenticated, no channel", inside(func(w *World, r *rand.Rand, cl *ssh.Client) {})},
		{"odd channel types", inside(func(w *World, r *rand.Rand, cl *ssh.Client) {
			for _, t := range []string{"direct-tcpip", "x11", "", "forwarded-tcpip", "session\x00", "auth-agent@openssh.com"} {
				patiently(func() { _, _, _ = cl.OpenChannel(t, randBytes(r, r.Intn(20))) })
			}
		})},
		{"session with extra data", inside(func(w *World, r *rand.Rand, cl *ssh.Client) {
			_, _, _ = cl.OpenChannel("session", randBytes(r, 50))
		})},
		{"global requests", inside(func(w *World, r *rand.Rand, cl *ssh.Client) {
			for _, t := range []string{"tcpip-forward", "keepalive@openssh.com", "", "no-more-sessions@openssh.com"} {
				patiently(func() { _, _, _ = cl.SendRequest(t, true, randBytes(r, r.Intn(20))) })
			}
		})},
		{"session channel, nothing more", inside(func(w *World, r *rand.Rand, cl *ssh.Client) { session(cl, false) })},
		{"many session channels", inside(func(w *World, r *rand.Rand, cl *ssh.Client) {
			for i := 0; i < 40; i++ {
				session(cl, i%2 == 0)
			}
		})},
		{"resets the connection while it opens channels", func(w *World, r *rand.Rand) func() {
			for i := 0; i < 160; i++ {
				nc := dialProxy()
				if nc == nil {
					break
				}
				_ = nc.SetDeadline(time.Now().Add(20 * time.Second))
				cc, chans, reqs, err := ssh.NewClientConn(nc, proxyAddr, &ssh.ClientConfig{User: w.User, Auth: []ssh.AuthMethod{ssh.Password(w.Password)}, HostKeyCallback: ssh.InsecureIgnoreHostKey()})
				if err != nil {
					_ = nc.Close()
					continue
				}
				go ssh.DiscardRequests(reqs)
				go func() {
					for range chans {
					}
				}()
				for k := 0; k < 20; k++ {
					go func(k int) {
						ch, rq, err := cc.OpenChannel("session", nil)
						if err != nil {
							return
						}
						go ssh.DiscardRequests(rq)
						if k%2 == 0 {
							_, _ = ch.SendRequest("subsystem", true, sstr("sftp"))
						}
					}(k)
				}
				time.Sleep(time.Duration(i%8) * 100 * time.Microsecond)
				_ = nc.(*net.TCPConn).SetLinger(0)
				_ = nc.Close()
			}
			return func() {}
		}},
		{"odd session requests", inside(func(w *World, r *rand.Rand, cl *ssh.Client) {
			for _, t := range []string{"shell", "exec", "pty-req", "env", "signal", "window-change", "", "exit-status", "subsystem "} {
				if ch := session(cl, false); ch != nil {
					_, _ = ch.SendRequest(t, true, randBytes(r, r.Intn(12)))
				}
			}
		})},
		{"subsystem request for something else", inside(func(w *World, r *rand.Rand, cl *ssh.Client) {
			for _, t := range []string{"shell", "", "sftp ", "SFTP", "../sftp"} {
				if ch := session(cl, false); ch != nil {
					_, _ = ch.SendRequest("subsystem", true, sstr(t))
				}
			}
		})},
		{"channel opened and closed at once", inside(func(w *World, r *rand.Rand, cl *ssh.Client) {
			for i := 0; i < 30; i++ {
				if ch := session(cl, i%2 == 0); ch != nil {
					_ = ch.Close()
				}
			}
		})},
		{"end of file on the channel", inside(func(w *World, r *rand.Rand, cl *ssh.Client) {
			if ch := session(cl, true); ch != nil {
				_ = ch.CloseWrite()
			}
		})},
		{"extended data", inside(func(w *World, r *rand.Rand, cl *ssh.Client) {
			if ch := session(cl, true); ch != nil {
				_, _ = ch.Stderr().Write(randBytes(r, 3000))
			}
		})},
		{"garbage instead of sftp", sftpRaw(false, false, func(w *World, r *rand.Rand) [][]byte {
			return [][]byte{append([]byte{0xff}, randBytes(r, 2000)...)}
		})},
		{"no init packet first", sftpRaw(false, true, func(w *World, r *rand.Rand) [][]byte {
			return [][]byte{pkt(fxStat, cat(be32(1), sstr("/")))}
		})},
		{"announces a huge sftp packet", sftpRaw(true, false, func(w *World, r *rand.Rand) [][]byte {
			return [][]byte{cat(be32(200<<10), []byte{fxStat}, randBytes(r, 50))}
		})},
		{"random sftp packets", sftpRaw(true, true, func(w *World, r *rand.Rand) (l [][]byte) {
			for i := 0; i < 60; i++ {
				l = append(l, randPkt(w, r))
			}
			return
		})},
		{"half an sftp packet", sftpRaw(true, false, func(w *World, r *rand.Rand) [][]byte {
			b := pkt(fxStat, cat(be32(1), sstr(someFile(w, r).Path)))
			return [][]byte{b[:1+r.Intn(len(b)-1)]}
		})},
		{"requests on unknown handles", sftpRaw(true, true, func(w *World, r *rand.Rand) (l [][]byte) {
			for _, t := range []byte{fxRead, fxReaddir, fxFstat, fxClose, fxWrite, fxFsetstat} {
				l = append(l, pkt(t, cat(be32(9), sstr("nothing"), be64(0), be32(100), be32(0))))
			}
			return
		})},
		{"many open handles", sftpRaw(true, true, func(w *World, r *rand.Rand) (l [][]byte) {
			for i := 0; i < 200; i++ {
				l = append(l, pkt(fxOpen, cat(be32(uint32(i)), sstr(someFile(w, r).Path), be32(1), be32(0))))
			}
			return
		})},
		{"asks for much and reads nothing", inside(func(w *World, r *rand.Rand, cl *ssh.Client) {
			ch := session(cl, true)
			if ch == nil {
				return
			}
			_, _ = ch.Write(pkt(fxInit, be32(3)))
			openFile(ch, someFile(w, r).Path, 2)
			for i := 0; i < 400; i++ {
				if _, err := ch.Write(pkt(fxRead, cat(be32(uint32(i+2)), sstr("1"), be64(0), be32(32768)))); err != nil {
					return
				}
			}
		})},
		{"odd reads", sftpRaw(true, true, func(w *World, r *rand.Rand) (l [][]byte) {
			f := someFile(w, r)
			l = append(l, pkt(fxOpen, cat(be32(1), sstr(f.Path), be32(1), be32(0))))
			for _, h := range []string{"0", "1"} {
				for _, x := range []struct {
					off uint64
					n   uint32
				}{{1 << 63, 100}, {1<<64 - 1, 32768}, {0, 0}, {0, 200000}, {uint64(len(f.PT)), 1}, {1 << 62, 1 << 17}} {
					l = append(l, pkt(fxRead, cat(be32(7), sstr(h), be64(x.off), be32(x.n))))
				}
				l = append(l, pkt(fxReaddir, cat(be32(7), sstr(h))))
			}
			return
		})},
		{"directory handle used as a file", sftpRaw(true, true, func(w *World, r *rand.Rand) (l [][]byte) {
			l = append(l, pkt(fxOpendir, cat(be32(1), sstr("/"))))
			for _, h := range []string{"0", "1"} {
				l = append(l, pkt(fxRead, cat(be32(7), sstr(h), be64(0), be32(100))), pkt(fxFstat, cat(be32(8), sstr(h))))
			}
			return
		})},
		{"odd paths", sftpRaw(true, true, func(w *World, r *rand.Rand) (l [][]byte) {
			for _, p := range []string{"", ".", "..", "//", "\x00", "a\x00b", "/..//../x", string(randBytes(r, 300)), "relative", "/" + string(make([]byte, 5000))} {
				for _, t := range []byte{fxStat, fxLstat, fxOpendir, fxRealpath, 19, 15, 14, 13} {
					l = append(l, pkt(t, cat(be32(3), sstr(p), be32(0))))
				}
				l = append(l, pkt(fxOpen, cat(be32(4), sstr(p), be32(1), be32(0))))
			}
			return
		})},
		{"disconnects in the middle of a transfer", inside(func(w *World, r *rand.Rand, cl *ssh.Client) {
			ch := session(cl, true)
			if ch == nil {
				return
			}
			_, _ = ch.Write(pkt(fxInit, be32(3)))
			openFile(ch, someFile(w, r).Path, 2)
			for i := 0; i < 20; i++ {
				_, _ = ch.Write(pkt(fxRead, cat(be32(2), sstr("1"), be64(0), be32(32768))))
			}
			_ = cl.Close()
		})},
		{"closes the channel in the middle of a transfer", inside(func(w *World, r *rand.Rand, cl *ssh.Client) {
			for k := 0; k < 5; k++ {
				ch := session(cl, true)
				if ch == nil {
					return
				}
				_, _ = ch.Write(pkt(fxInit, be32(3)))
				openFile(ch, someFile(w, r).Path, 2)
				for i := 0; i < 20; i++ {
					_, _ = ch.Write(pkt(fxRead, cat(be32(2), sstr("1"), be64(0), be32(32768))))
				}
				_ = ch.Close()
			}
		})},
	}
	for n := 0; n <= 6; n++ {
		n := n
		l = append(l, hostile{fmt.Sprintf("subsystem request with a payload of %d bytes", n), inside(func(w *World, r *rand.Rand, cl *ssh.Client) {
			if ch := session(cl, false); ch != nil {
				_, _ = ch.SendRequest("subsystem", true, randBytes(r, n))
			}
		})})
	}
	l = append(l, hostile{"subsystem request with a lying length", inside(func(w *World, r *rand.Rand, cl *ssh.Client) {
		if ch := session(cl, false); ch != nil {
			_, _ = ch.SendRequest("subsystem", true, cat(be32(1<<31), []byte("sftp")))
		}
	})})
	return l
}

func runC21(c *Ctx) {
	c.Rule("one case = one hostile client behaviour (or a random mixture of several) held while a well-behaved client logs in, lists and reads on the running program; distinct = distinct behaviours and mixtures")
	c.Assume("a well-behaved client counts as blocked if its work does not finish in 8 s while the hostile clients are held, twice in a row, and finishes after they are released; machine load alone does not do that",
		"faults inside golang.org/x/crypto/ssh and github.com/pkg/sftp are part of the program")
	for _, k := range []string{"hostile_behaviours", "good_sessions", "starts"} {
		c.Need(k, 2)
	}
	defer c21Library(c)
	for i := 0; i < c.N(3, 12) && !c.Stopped(); i++ {
		c21Exhaust(c, c.Rand("exhaust", i), i)
	}
	for i := 0; i < c.N(2, 8) && !c.Stopped(); i++ {
		c21Crowd(c, c.Rand("crowd", i), i)
	}
	hs := hostiles()
	var w *World
	var p *Proxy
	closeAll := func() {
		if p != nil {
			p.Kill()
		}
		if w != nil {
			w.Close()
		}
		p, w = nil, nil
	}
	defer closeAll()
	open := func(r *rand.Rand) bool {
		closeAll()
		w = newWorld(c, r, nil)
		w.fs.Shuffle(r)
		args := []string{}
		if r.Intn(3) == 0 {
			args = append(args, "-e")
		}
		p = w.up(args...)
		if p == nil {
			return false
		}
		c.Count("starts", 1)
		return true
	}
	one := func(label string, r *rand.Rand, which []hostile) {
		names := ""
		for _, h := range which {
			names += h.name + "; "
		}
		c.Eval(names)
		c.Current([]string{label, names})
		var rel []func()
		var mu sync.Mutex
		var wg sync.WaitGroup
		for k, h := range which {
			h, rr := h, rand.New(rand.NewSource(r.Int63()+int64(k)))
			wg.Add(1)
			go func() {
				defer wg.Done()
				f := h.run(w, rr)
				mu.Lock()
				rel = append(rel, f)
				mu.Unlock()
			}()
		}
		hdone := make(chan struct{})
		go func() { wg.Wait(); close(hdone) }()
		select {
		case <-hdone:
		case <-time.After(30 * time.Second):
		}
		c.Count("hostile_behaviours", int64(len(which)))
		release := func() {
			mu.Lock()
			l := rel
			rel = nil
			mu.Unlock()
			for _, f := range l {
				f()
			}
		}
		defer release()
		blocked := ""
		for try := 0; try < 2; try++ {
			pr, to := w.service(r, 8*time.Second)
			if p.exited() {
				break
			}
			if pr == "" {
				blocked = ""
				c.Count("good_sessions", 1)
				break
			}
			blocked = pr
			if !to {
				break
			}
		}
		if p.exited() {
			kind, cr := classifyCrash(p.err.String())
			c.Violate(kind, "the proxy ends (exit %d) after a client: %s\n%s", p.exit, names, cr)
			open(c.Rand("again", label))
			return
		}
		if blocked == "" {
			return
		}
		release()
		pr, _ := w.service(r, 40*time.Second)
		if p.exited() {
			kind, cr := classifyCrash(p.err.String())
			c.Violate(kind, "the proxy ends (exit %d) after a client: %s\n%s", p.exit, names, cr)
		} else if pr == "" {
			c.Violate("blocked", "while a client does this: %s\nanother client is not served (%s); once it is gone, service works again", names, blocked)
		} else {
			dump := p.Dump()
			c.Violate("blocked", "after a client did this: %s\nother clients are not served any more (%s; later %s)\n%s", names, blocked, pr, dump)
		}
		open(c.Rand("again", label))
	}
	for rep := 0; rep < c.N(6, 40) && !c.Stopped(); rep++ {
		if !open(c.Rand("world", rep)) {
			return
		}
		for k, h := range hs {
			if c.Stopped() || p == nil {
				return
			}
			one(fmt.Sprint(rep, "/", k), c.Rand("h", rep, k), []hostile{h})
			if rep == 0 && k < 3 {
				c.Sample(h.name)
			}
		}
	}
	for i := 0; i < c.N(200, 3000) && !c.Stopped(); i++ {
		if i%20 == 0 && !open(c.Rand("mixworld", i)) {
			return
		}
		if p == nil {
			return
		}
		r := c.Rand("mix", i)
		var which []hostile
		for n := 2 + r.Intn(5); n > 0; n-- {
			which = append(which, hs[r.Intn(len(hs))])
		}
		one(fmt.Sprint("mix", i), r, which)
	}
}

// c21Crowd: very many clients are connected and do nothing, or stay logged in, or stay in
// a session. Others are served all the same.
func c21Crowd(c *Ctx, r *rand.Rand, i int) {
	w := newWorld(c, r, nil)
	defer w.Close()
	p := w.up()
	if p == nil {
		return
	}
	defer p.Kill()
	n := 1500
	var lim syscall.Rlimit
	if syscall.Getrlimit(syscall.RLIMIT_NOFILE, &lim) == nil && int(lim.Max)/3 < n {
		n = int(lim.Max) / 3
	}
	names := fmt.Sprintf("%d silent connections", n)
	var mu sync.Mutex
	var held []io.Closer
	hold := func(x io.Closer) {
		mu.Lock()
		held = append(held, x)
		mu.Unlock()
	}
	defer func() {
		for _, x := range held {
			_ = x.Close()
		}
	}()
	if i%2 == 0 {
		for k := 0; k < n && !p.exited(); k++ {
			nc, err := net.DialTimeout("tcp", proxyAddr, 5*time.Second)
			if err != nil {
				break
			}
			hold(nc)
			if k%3 == 0 {
				_, _ = nc.Write([]byte("SSH-2.0-x\r\n"))
			}
		}
	} else {
		n = n * 2 / 5
		names = fmt.Sprintf("%d logged-in clients, half of them in a session", n)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := g; k < n && !p.exited(); k += 8 {
					cl, err := sshClient(w.User, ssh.Password(w.Password))
					if err != nil {
						c.Count("crowd_refused", 1)
						continue
					}
					hold(cl)
					if k%2 == 0 {
						session(cl, true)
					}
				}
			}()
		}
		wg.Wait()
	}
	c.Eval(names)
	c.Current([]string{"crowd", names})
	c.Max("crowd", int64(len(held)))
	c.Count("crowds", 1)
	pr := ""
	for try := 0; try < 2; try++ {
		if pr, _ = w.service(r, 60*time.Second); pr == "" || p.exited() {
			break
		}
	}
	if p.exited() {
		kind, cr := classifyCrash(p.err.String())
		c.Violate(kind, "the proxy ends (exit %d) with %s\n%s", p.exit, names, cr)
	} else if pr != "" {
		c.Violate("blocked", "with %s (%d held), another client is not served: %s", names, len(held), pr)
	}
}

// c21Exhaust: clients take all file descriptors the program may have. It may refuse
// others meanwhile, but it survives and serves again once they are gone.
func c21Exhaust(c *Ctx, r *rand.Rand, i int) {
	w := newWorld(c, r, nil)
	defer w.Close()
	p := w.up()
	if p == nil {
		return
	}
	defer p.Kill()
	c.Eval(fmt.Sprint("descriptors exhausted ", i))
	c.Current("descriptors exhausted")
	pid := p.cmd.Process.Pid
	l := struct{ cur, max uint64 }{uint64(fdCount(pid) + 5 + r.Intn(20)), 4096}
	if _, _, e := syscall.Syscall6(syscall.SYS_PRLIMIT64, uintptr(pid), syscall.RLIMIT_NOFILE, uintptr(unsafe.Pointer(&l)), 0, 0, 0); e != 0 {
		c.Count("no_prlimit", 1)
		return
	}
	var held []net.Conn
	for k := 0; k < 100; k++ {
		nc, err := net.DialTimeout("tcp", proxyAddr, 2*time.Second)
		if err != nil {
			break
		}
		held = append(held, nc)
		if k%3 == 0 {
			_, _ = nc.Write([]byte("SSH-2.0-x\r\n"))
		}
	}
	full := false
	for k := 0; k < 100 && !full && !p.exited(); k++ {
		full = uint64(fdCount(pid)) >= l.cur
		time.Sleep(5 * time.Millisecond)
	}
	time.Sleep(200 * time.Millisecond)
	if full {
		c.Count("descriptors_exhausted", 1)
	}
	for _, nc := range held {
		_ = nc.Close()
	}
	pr := ""
	for k := 0; k < 20 && !p.exited(); k++ {
		if pr, _ = w.service(r, 20*time.Second); pr == "" {
			c.Count("good_sessions", 1)
			break
		}
		time.Sleep(200 * time.Millisecond)
	}
	switch {
	case p.exited():
		kind, cr := classifyCrash(p.err.String())
		c.Violate(kind, "the proxy ends (exit %d) when %d clients take its last file descriptors\n%s", p.exit, len(held), clip(cr, 3000))
	case pr != "":
		c.Violate("blocked", "after %d clients had taken the last file descriptors and left, others are not served any more: %s", len(held), pr)
	}
}

// fdCount is the number of open descriptors of a process.
func fdCount(pid int) int {
	l, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	return len(l)
}

// c21Library: behaviours on which pkg/sftp v1.10.0 itself panics and takes the program
// down. They are kept apart from the other behaviours and identified by the panicking
// function.
// classifyCrash tells a crash entirely inside pkg/sftp from any other one.
func classifyCrash(stderr string) (kind, text string) {
	cr := crashPart(stderr)
	if i := strings.Index(cr, "\ngoroutine "); i >= 0 {
		top := cr[i+1:]
		if j := strings.Index(top, "created by"); j >= 0 {
			top = top[:j]
		}
		if strings.Contains(top, "github.com/pkg/sftp.") && !strings.Contains(top, repoMod) && !strings.Contains(top, "\nmain.") {
			return "crash-in-pkg-sftp", top
		}
	}
	return "crash", cr
}

func c21Library(c *Ctx) {
	known := []struct {
		what, frame string
		tries       int
		run         func(w *World, r *rand.Rand) func()
	}{
		{"an sftp packet of an unknown type", "github.com/pkg/sftp.(*orderedRequest).id", 2,
			sftpRaw(true, true, func(w *World, r *rand.Rand) [][]byte { return [][]byte{pkt(101, cat(be32(1), be32(0)))} })},
		{"a setstat packet without attributes", "github.com/pkg/sftp.requestFromPacket", 2,
			sftpRaw(true, true, func(w *World, r *rand.Rand) [][]byte { return [][]byte{pkt(9, cat(be32(1), sstr("/")))} })},
		{"reads sent before the reply to their open", "github.com/pkg/sftp.(*Request).call", 400,
			inside(func(w *World, r *rand.Rand, cl *ssh.Client) {
				ch := session(cl, true)
				if ch == nil {
					return
				}
				go func() { _, _ = io.Copy(io.Discard, ch) }()
				_, _ = ch.Write(pkt(fxInit, be32(3)))
				path := someFile(w, r).Path
				for i := 1; i < 300; i++ {
					b := pkt(fxOpen, cat(be32(1), sstr(path), be32(1), be32(0)))
					for k := 0; k < 8; k++ {
						b = append(b, pkt(fxRead, cat(be32(2), sstr(fmt.Sprint(i)), be64(0), be32(1)))...)
					}
					if _, err := ch.Write(b); err != nil {
						return
					}
				}
			})},
	}
	for n, k := range known {
		w := newWorld(c, c.Rand("lib", n), nil)
		p := w.up()
		if p == nil {
			w.Close()
			return
		}
		seen := false
		for t := 0; t < k.tries && !seen; t++ {
			c.Eval("library: " + k.what)
			rel := k.run(w, c.Rand("lib", n, t))
			for i := 0; i < 30 && !p.exited() && k.tries < 10; i++ {
				time.Sleep(10 * time.Millisecond)
			}
			rel()
			pr, to := "", false
			if !p.exited() {
				pr, to = w.service(c.Rand("libsvc", n, t), 30*time.Second)
				for i := 0; i < 200 && pr != "" && !p.exited(); i++ {
					time.Sleep(10 * time.Millisecond)
				}
			}
			if p.exited() {
				kind, cr := classifyCrash(p.err.String())
				c.Violate(kind, "the proxy ends (exit %d) after %s\n%s", p.exit, k.what, cr)
				seen = true
			} else if pr != "" && !to {
				c.Violate("blocked", "after %s another client is not served: %s", k.what, pr)
				seen = true
			}
		}
		p.Kill()
		w.Close()
	}
}
