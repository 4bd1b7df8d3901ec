package main

import (
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path"
	"regexp"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"golang.org/x/crypto/ssh"
)

func init() { register("C30", &Check{Run: runC30}) }

// one way in which a client comes and goes; all of its connections are closed at the end
const failingRemote = "the remote fails the reads of some files"

// unreadable chooses the files that the remote opens but does not read, about half of them.
func unreadable(cpath string) bool {
	sum := 0
	for _, b := range []byte(path.Base(cpath)) {
		sum += int(b)
	}
	return cpath != "" && path.Base(cpath) != "gocryptfs.diriv" && sum%2 == 1
}

type ending struct {
	name string
	run  func(w *World, r *rand.Rand)
	slow bool // the remote answers slowly meanwhile
}

// rst closes a connection with a reset.
func rst(nc net.Conn) {
	if t, ok := nc.(*net.TCPConn); ok {
		_ = t.SetLinger(0)
	}
	_ = nc.Close()
}

// loggedIn runs f on an authenticated connection; f says how the connection is closed.
func loggedIn(f func(w *World, r *rand.Rand, cl *ssh.Client)) func(w *World, r *rand.Rand) {
	return func(w *World, r *rand.Rand) {
		nc, err := net.DialTimeout("tcp", proxyAddr, 20*time.Second)
		if err != nil {
			return
		}
		tm := time.AfterFunc(30*time.Second, func() { rst(nc) })
		defer tm.Stop()
		cc, ch, rq, err := ssh.NewClientConn(nc, proxyAddr, &ssh.ClientConfig{User: w.User, Auth: []ssh.AuthMethod{ssh.Password(w.Password)}, HostKeyCallback: ssh.InsecureIgnoreHostKey()})
		if err != nil {
			_ = nc.Close()
			return
		}
		cl := ssh.NewClient(cc, ch, rq)
		f(w, r, cl)
		if r.Intn(2) == 0 {
			rst(nc)
		} else {
			_ = cl.Close()
			_ = nc.Close()
		}
	}
}

func endings() []ending {
	sftpDo := func(f func(w *World, r *rand.Rand, ch ssh.Channel)) func(w *World, r *rand.Rand) {
		return loggedIn(func(w *World, r *rand.Rand, cl *ssh.Client) {
			if ch := session(cl, true); ch != nil {
				f(w, r, ch)
			}
		})
	}
	raw := func(f func(nc net.Conn, r *rand.Rand)) func(w *World, r *rand.Rand) {
		return func(w *World, r *rand.Rand) {
			nc, err := net.DialTimeout("tcp", proxyAddr, 20*time.Second)
			if err != nil {
				return
			}
			f(nc, r)
			if r.Intn(2) == 0 {
				rst(nc)
			} else {
				_ = nc.Close()
			}
		}
	}
	return []ending{
		{"a complete session", func(w *World, r *rand.Rand) { _, _ = w.service(r, 30*time.Second) }, false},
		{"closes without a word", raw(func(nc net.Conn, r *rand.Rand) {}), false},
		{"closes during the handshake", raw(func(nc net.Conn, r *rand.Rand) {
			_, _ = nc.Write([]byte("SSH-2.0-x\r\n"))
			b := make([]byte, 600)
			_ = nc.SetReadDeadline(time.Now().Add(5 * time.Second))
			_, _ = nc.Read(b)
			if r.Intn(2) == 0 {
				_, _ = nc.Write(randBytes(r, 1+r.Intn(100)))
			}
		}), false},
		{"wrong password", func(w *World, r *rand.Rand) {
			if cl, err := sshClient(w.User, ssh.Password("wrong")); err == nil {
				_ = cl.Close()
			}
		}, false},
		{"logs in and leaves", loggedIn(func(w *World, r *rand.Rand, cl *ssh.Client) {}), false},
		{"odd channels", loggedIn(func(w *World, r *rand.Rand, cl *ssh.Client) {
			patiently(func() { _, _, _ = cl.OpenChannel("direct-tcpip", randBytes(r, 20)) })
			patiently(func() { _, _, _ = cl.OpenChannel("x", nil) })
			patiently(func() { _, _, _ = cl.SendRequest("tcpip-forward", true, nil) })
		}), false},
		{"channels without a subsystem", loggedIn(func(w *World, r *rand.Rand, cl *ssh.Client) {
			for k := 0; k < 3; k++ {
				ch := session(cl, false)
				if ch != nil && r.Intn(2) == 0 {
					_ = ch.Close()
				}
			}
		}), false},
		{"files left open", sftpDo(func(w *World, r *rand.Rand, ch ssh.Channel) {
			c, err := newRawClient(ch)
			if err != nil {
				return
			}
			for k := 0; k < 4; k++ {
				_, _ = c.open(someFile(w, r).Path, 1)
			}
			_, _ = c.rt(fxOpendir, sstr("/"))
		}), false},
		{"leaves during a transfer", sftpDo(func(w *World, r *rand.Rand, ch ssh.Channel) {
			c, err := newRawClient(ch)
			if err != nil {
				return
			}
			h, err := c.open(someFile(w, r).Path, 1)
			if err != nil {
				return
			}
			for k := 0; k < 30; k++ {
				_, _ = ch.Write(pkt(fxRead, cat(be32(uint32(100+k)), sstr(h), be64(uint64(k)*32768), be32(32768))))
			}
		}), false},
		{"leaves while the remote is asked", sftpDo(func(w *World, r *rand.Rand, ch ssh.Channel) {
			_, _ = ch.Write(pkt(fxInit, be32(3)))
			for k := 0; k < 3; k++ {
				_, _ = ch.Write(pkt(fxStat, cat(be32(uint32(1+k)), sstr(someFile(w, r).Path))))
			}
		}), true},
		{"malformed sftp data", sftpDo(func(w *World, r *rand.Rand, ch ssh.Channel) {
			_, _ = ch.Write(pkt(fxInit, be32(3)))
			_, _ = ch.Write(be32(0x00100000))
			_, _ = ch.Write(randBytes(r, 50))
			if r.Intn(2) == 0 {
				_, _ = io.CopyN(io.Discard, ch, 9)
			}
		}), false},
		{"closes the channel first", sftpDo(func(w *World, r *rand.Rand, ch ssh.Channel) {
			if c, err := newRawClient(ch); err == nil {
				_, _, _ = c.list("/")
			}
			if r.Intn(2) == 0 {
				_ = ch.CloseWrite()
			}
			_ = ch.Close()
		}), false},
		{"many sessions on one connection", loggedIn(func(w *World, r *rand.Rand, cl *ssh.Client) {
			for k := 0; k < 5; k++ {
				if ch := session(cl, true); ch != nil {
					if c, err := newRawClient(ch); err == nil {
						_, _ = c.open(someFile(w, r).Path, 1)
					}
					if r.Intn(2) == 0 {
						_ = ch.Close()
					}
				}
			}
		}), false},
		{failingRemote, sftpDo(func(w *World, r *rand.Rand, ch ssh.Channel) {
			c, err := newRawClient(ch)
			if err != nil {
				return
			}
			_, files := w.v.All()
			for _, k := range r.Perm(len(files)) {
				if f := files[k]; unreadable(f.CPath) {
					if _, err := c.readAll(f.Path, 32768); err != nil {
						w.c.Count("reads_failed_by_the_remote", 1)
					}
				}
			}
		}), false},
		{"requests that fail", sftpDo(func(w *World, r *rand.Rand, ch ssh.Channel) {
			c, err := newRawClient(ch)
			if err != nil {
				return
			}
			for k := 0; k < 5; k++ {
				_, _ = c.open(fmt.Sprintf("/no such file %d", r.Int63()), 1)
				_, _ = c.rt(fxOpendir, sstr(fmt.Sprintf("/nowhere/%d", k)))
				_, _ = c.attrReq(fxStat, "/nowhere")
				_, _ = c.rt(fxMkdir, sstr("/new"), be32(0))
			}
		}), false},
	}
}

// clientSockets counts the descriptors of the process that belong to connections
// accepted on port 9022.
func clientSockets(pid int) int {
	inodes := map[string]bool{}
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) > 9 && strings.HasSuffix(w[1], ":233E") && w[3] != "0A" && w[9] != "0" {
				inodes["socket:["+w[9]+"]"] = true
			}
		}
	}
	n := 0
	l, _ := os.ReadDir(fmt.Sprintf("/proc/%d/fd", pid))
	for _, e := range l {
		if t, err := os.Readlink(fmt.Sprintf("/proc/%d/fd/%s", pid, e.Name())); err == nil && inodes[t] {
			n++
		}
	}
	return n
}

var goroutineRe = regexp.MustCompile(`(?m)^goroutine \d+ `)

// goroutines ends the program with a dump and counts.
func (p *Proxy) goroutines() (int, string) {
	_ = p.cmd.Process.Signal(syscall.SIGQUIT)
	select {
	case <-p.done:
	case <-time.After(20 * time.Second):
		return -1, ""
	}
	s := p.err.String()
	return len(goroutineRe.FindAllString(s, -1)), s
}

var gctraceRe = regexp.MustCompile(`(?m)^gc \d+ .* \d+->\d+->(\d+) MB`)

// liveHeap reads the size of the program's live heap (MB) off its garbage collector's log,
// after some more collections.
func (p *Proxy) liveHeap(w *World, r *rand.Rand) int {
	n := len(gctraceRe.FindAllString(p.err.String(), -1))
	for k := 0; k < 200; k++ {
		_, _ = w.service(r, 30*time.Second)
		m := gctraceRe.FindAllStringSubmatch(p.err.String(), -1)
		if len(m) < n+5 {
			continue
		}
		best := -1
		for _, x := range m[len(m)-3:] {
			if v, err := strconv.Atoi(x[1]); err == nil && (best < 0 || v < best) {
				best = v
			}
		}
		return best
	}
	return -1
}

func runC30(c *Ctx) {
	c.Rule("one case = one client that comes and goes in one of the ways listed, several hundred per way on one run of the program; afterwards its client sockets, goroutines and open remote handles are counted; distinct = distinct ways and repetitions")
	c.Assume("the connections to the remote are pooled and stay open, with up to 10 goroutines each; beyond that, up to half as many goroutines as clients are tolerated as noise")
	c.Need("clients", 500)
	c.Need("goroutine_dumps", 5)
	c.Need("heaps_compared", 5)
	each := c.N(320, 4000)
	base, baseLive := -1, 0
	es := append([]ending{{"nobody", nil, false}}, endings()...)
	for i, e := range es {
		if c.Stopped() {
			return
		}
		r := c.Rand("leftover", i)
		sessions := each
		if i == 1 {
			sessions = 5 * each // small things add up
		}
		w := newWorld(c, r, nil)
		w.env = []string{"GODEBUG=gctrace=1", "GOGC=20"}
		p := w.up()
		if p == nil {
			w.Close()
			return
		}
		c.Current(e.name)
		if e.name == failingRemote {
			w.sshd.OnPacket = func(cn *SConn, n int, p SPkt) Action {
				cn.mu.Lock()
				f := cn.open[p.Handle]
				cn.mu.Unlock()
				if p.Type == fxRead && unreadable(f) {
					return Action{Fail: 4}
				}
				return Action{}
			}
		}
		// so that the pool of remote connections is warm
		warm := func(n int) {
			var wg sync.WaitGroup
			for k := 0; k < n; k++ {
				wg.Add(1)
				rr := rand.New(rand.NewSource(r.Int63()))
				go func() { defer wg.Done(); _, _ = w.service(rr, 30*time.Second) }()
			}
			wg.Wait()
		}
		warm(8)
		heap := p.liveHeap(w, r)
		if e.slow {
			w.sshd.OnPacket = func(cn *SConn, n int, p SPkt) Action { return Action{Delay: 3 * time.Millisecond} }
		}
		if e.run != nil {
			var wg sync.WaitGroup
			for k := 0; k < 8; k++ {
				wg.Add(1)
				rr := rand.New(rand.NewSource(r.Int63()))
				go func() {
					defer wg.Done()
					for j := 0; j < sessions/8 && !p.exited(); j++ {
						c.Eval(fmt.Sprint(e.name, j, rr.Int63()))
						e.run(w, rr)
						c.Count("clients", 1)
					}
				}()
			}
			wg.Wait()
		}
		warm(8)
		if p.exited() {
			_, cr := classifyCrash(p.err.String())
			c.Violate("crash", "the proxy ends after clients: %s\n%s", e.name, cr)
			w.Close()
			return
		}
		heap2 := p.liveHeap(w, r)
		if heap >= 0 && heap2 >= 0 {
			c.Count("heaps_compared", 1)
			c.Max("max_heap_growth_mb", int64(heap2-heap))
			if heap2-heap > 6+int(w.sshd.Live())/2 {
				c.Violate("memory-left", "after %d clients (%s) all are gone, but the live heap has grown from %d to %d MB", sessions, e.name, heap, heap2)
			}
		}
		left := 0
		for end := time.Now().Add(30 * time.Second); time.Now().Before(end); time.Sleep(20 * time.Millisecond) {
			if left = clientSockets(p.cmd.Process.Pid); left == 0 {
				break
			}
		}
		if left > 0 {
			c.Violate("sockets-left", "%d clients have come and gone (%s) and none is connected any more, but half a minute later the proxy still holds %d of their connections", sessions, e.name, left)
		}
		c.Count("sockets_checked", 1)
		for _, cn := range w.sshd.Conns() {
			open := 0
			for k := 0; k < 200; k++ {
				cn.mu.Lock()
				open = len(cn.open)
				if cn.dead {
					open = 0
				}
				cn.mu.Unlock()
				if open == 0 {
					break
				}
				time.Sleep(20 * time.Millisecond)
			}
			c.Count("remote_connections_checked", 1)
			if open > 0 {
				c.Violate("handles-left", "after %d clients (%s) all are gone, but %d handles are still open at the remote on one connection", sessions, e.name, open)
			}
		}
		time.Sleep(300 * time.Millisecond)
		live := int(w.sshd.Live())
		n, dump := p.goroutines()
		p.Kill()
		if n < 0 {
			c.Count("no_dump", 1)
			w.Close()
			continue
		}
		c.Count("goroutine_dumps", 1)
		c.Max("max_goroutines", int64(n))
		if i == 0 {
			base, baseLive = n, live
			c.Count("goroutines_without_clients", int64(n))
		} else if n > base+sessions/2+10*max(0, live-baseLive) {
			c.Violate("goroutines-left", "after %d clients (%s) all are gone, but %d goroutines are left (%d without these clients; %d more connections to the remote)\n%s", sessions, e.name, n, base, live-baseLive, commonStacks(dump))
		}
		if i < 4 {
			c.Sample(fmt.Sprintf("%s: %d clients, then 0 client sockets, %d goroutines (%d without them)", e.name, sessions, n, base))
		}
		w.Close()
	}
	c30Channels(c, c.Rand("channels"), c.N(320, 2000), base, baseLive)
	c.Need("ended_by_proxy", 10)
	c.Need("reads_failed_by_the_remote", 300)
}

// c30Channels: sessions that come and go on one connection that stays. A session whose
// client has said that it sends nothing more is closed by the proxy, too.
func c30Channels(c *Ctx, r *rand.Rand, n, base, baseLive int) {
	w := newWorld(c, r, nil)
	defer w.Close()
	p := w.up()
	if p == nil {
		return
	}
	defer p.Kill()
	c.Current("sessions on one connection")
	var cls []*ssh.Client
	for k := 0; k < 2; k++ {
		cl, err := sshClient(w.User, ssh.Password(w.Password))
		if err != nil {
			c.Violate("not-served", "a client cannot log in: %v", err)
			return
		}
		defer cl.Close()
		cls = append(cls, cl)
	}
	for k := 0; k < n && !c.Stopped(); k++ {
		c.Eval(fmt.Sprint("channel", k))
		ch := session(cls[k%2], k%7 != 0)
		if ch == nil {
			c.Violate("not-served", "session %d on one connection, after the earlier ones ended, is refused", k)
			return
		}
		c.Count("sessions_on_one_connection", 1)
		how := k % 5
		if k%7 != 0 && how != 3 {
			rc, err := newRawClient(ch)
			if err == nil {
				f := someFile(w, r)
				var b []byte
				if b, err = rc.readAll(f.Path, 32768); err == nil && !eqb(b, f.PT) {
					err = fmt.Errorf("wrong data: %s", diffDesc(b, f.PT))
				}
				if how == 2 {
					_, _ = rc.open(f.Path, 1)
				}
			}
			if err != nil {
				c.Violate("not-served", "session %d on one connection, after the earlier ones ended: %v", k, err)
				return
			}
		}
		if how >= 3 {
			part := ""
			if k%3 == 0 {
				// in the middle of a packet
				full := pkt(fxStat, cat(be32(77), sstr("/some/path")))
				full = full[:1+r.Intn(len(full)-1)]
				_, _ = ch.Write(full)
				part = fmt.Sprintf(", %d bytes into a packet", len(full))
			}
			_ = ch.CloseWrite()
			done := make(chan struct{})
			go func() { _, _ = io.Copy(io.Discard, ch); close(done) }()
			select {
			case <-done:
				c.Count("ended_by_proxy", 1)
			case <-time.After(30 * time.Second):
				c.Violate("session-not-ended", "half a minute after the client sent the end of its data%s, the proxy has not ended the session", part)
				return
			}
		}
		_ = ch.Close()
	}
	if p.exited() {
		_, cr := classifyCrash(p.err.String())
		c.Violate("crash", "the proxy ends\n%s", cr)
		return
	}
	time.Sleep(500 * time.Millisecond)
	live := int(w.sshd.Live())
	g, dump := p.goroutines()
	if g > base+n/2+10*max(0, live-baseLive) {
		c.Violate("goroutines-left", "%d sessions have ended on two connections that stay, but %d goroutines are left (%d without)\n%s", n, g, base, commonStacks(dump))
	}
	c.Count("goroutine_dumps", 1)
}

// commonStacks shows the most frequent goroutine stacks of a dump.
func commonStacks(dump string) string {
	cnt := map[string]int{}
	sample := map[string]string{}
	for _, g := range strings.Split(dump, "\n\n") {
		if !strings.HasPrefix(g, "goroutine ") {
			continue
		}
		var fn []string
		for _, l := range strings.Split(g, "\n")[1:] {
			if !strings.HasPrefix(l, "\t") {
				if i := strings.LastIndex(l, "("); i > 0 {
					l = l[:i]
				}
				fn = append(fn, l)
			}
		}
		k := strings.Join(fn, " < ")
		cnt[k]++
		sample[k] = g
	}
	best, n := "", 0
	for k, v := range cnt {
		if v > n {
			best, n = k, v
		}
	}
	return fmt.Sprintf("%d times:\n%s", n, clip(sample[best], 2500))
}
