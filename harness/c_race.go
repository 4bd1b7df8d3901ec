package main

import (
	"fmt"
	"math/rand"
	randv2 "math/rand/v2"
	"net"
	"os"
	"path"
	"path/filepath"
	"sync"
	"time"

	"github.com/flawedmatrix/gocryptsftp/backend"
	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/nametransform"
	"github.com/flawedmatrix/gocryptsftp/requester"
	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
)

func init() {
	register("C17", &Check{Run: runC17, Race: true, Shards: func(thorough bool) int {
		if thorough {
			return 12
		}
		return 2
	}})
}

// quietFS is a remote without locks or shared mutable state, so that it adds no
// ordering between the goroutines using it.
type quietFS struct {
	ents    map[string]*memEnt
	fail    uint32 // 1/fail of the calls fail
	delayUs uint32
	armed   bool
}

func (q *quietFS) in(p string) (*memEnt, error) {
	if q.delayUs > 0 && randv2.Uint32N(3) == 0 {
		time.Sleep(time.Duration(randv2.Uint32N(q.delayUs)) * time.Microsecond)
	}
	if q.armed && q.fail > 0 && randv2.Uint32N(q.fail) == 0 {
		return nil, injected(p)
	}
	e := q.ents[path.Clean(p)]
	if e == nil {
		return nil, os.ErrNotExist
	}
	return e, nil
}

func (q *quietFS) ReadFile(p string) ([]byte, error) {
	e, err := q.in(p)
	if err != nil {
		return nil, err
	}
	return append([]byte{}, e.data...), nil
}
func (q *quietFS) ReadDir(p string) ([]os.FileInfo, error) {
	e, err := q.in(p)
	if err != nil {
		return nil, err
	}
	return append([]os.FileInfo{}, e.kids...), nil
}
func (q *quietFS) Stat(p string) (os.FileInfo, error) {
	e, err := q.in(p)
	if err != nil {
		return nil, err
	}
	return e.info, nil
}

// quietBackend likewise for the requester.
type quietBackend struct {
	fail    uint32
	delayUs uint32
}

func (q quietBackend) pause() error {
	if q.delayUs > 0 {
		time.Sleep(time.Duration(randv2.Uint32N(q.delayUs)) * time.Microsecond)
	}
	if q.fail > 0 && randv2.Uint32N(q.fail) == 0 {
		return injected("/x")
	}
	return nil
}
func (q quietBackend) ReadFile(p string) ([]byte, error) {
	if err := q.pause(); err != nil {
		return nil, err
	}
	return []byte(p), nil
}
func (q quietBackend) ReadDir(p string) ([]os.FileInfo, error) {
	if err := q.pause(); err != nil {
		return nil, err
	}
	return []os.FileInfo{&memInfo{name: p}}, nil
}
func (q quietBackend) DecryptName(n string, iv []byte) (string, error) {
	if err := q.pause(); err != nil {
		return "", err
	}
	return n + string(iv), nil
}

// together runs n goroutines with their own generators and sums what they did.
func together(r *rand.Rand, n int, f func(g int, r *rand.Rand) int64) int64 {
	sums := make([]int64, n)
	var wg sync.WaitGroup
	gate := make(chan struct{})
	for g := 0; g < n; g++ {
		gr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func(g int) {
			defer wg.Done()
			<-gate
			sums[g] = f(g, gr)
		}(g)
	}
	close(gate)
	wg.Wait()
	var t int64
	for _, s := range sums {
		t += s
	}
	return t
}

func runC17(c *Ctx) {
	c.Rule("the race detector watches: sessions of the whole proxy over a lock-free memory remote and over a real SSH/SFTP remote with failures and cut connections, the requester with failures and cache clears, the path cache, the connection pool and the content and name encryption under concurrent use, all over perturbed schedules; " +
		"harness code shares no state between the goroutines, so it adds no ordering; a case is one call; distinct by workload and call kind")
	c.Assume("reports whose racing accesses lie outside gocryptsftp are not counted; one volume is unlocked at a time, before its sessions start")
	t0 := time.Now()
	for e := 0; e < c.N(14, 60); e++ {
		c17Proxy(c, c.Rand("mem", e), e, false)
	}
	for e := 0; e < c.N(8, 30); e++ {
		c17Proxy(c, c.Rand("ssh", e), e, true)
	}
	for e := 0; e < c.N(30, 150); e++ {
		c17Requester(c, c.Rand("rq", e), e)
	}
	for e := 0; e < c.N(20, 100); e++ {
		c17Cache(c, c.Rand("cache", e), e)
	}
	for e := 0; e < c.N(10, 40); e++ {
		c17Pool(c, c.Rand("pool", e), e)
	}
	for e := 0; e < c.N(10, 50); e++ {
		c17Crypt(c, c.Rand("crypt", e), e)
	}
	if os.Getenv("VH_SHARD") == "0" && os.Getenv("VH_BIN") != "" {
		for e := 0; e < c.N(2, 12); e++ {
			c17Program(c, c.Rand("program", e), e)
		}
		c.Need("program_sessions", 50)
	}
	c.Sample(fmt.Sprintf("ran %.0f s under the race detector", time.Since(t0).Seconds()))
	c.Need("proxy_calls", 3000)
	c.Need("requester_calls", 10000)
	c.Need("cache_calls", 50000)
	c.Need("pool_calls", 1000)
	c.Need("crypt_calls", 1000)
}

func c17Evals(c *Ctx, name string, e int, n int64) {
	c.Count(name, n)
	c.mu.Lock()
	c.evals += n
	c.mu.Unlock()
	c.Eval(fmt.Sprint(name, e))
}

func c17Proxy(c *Ctx, r *rand.Rand, e int, overSSH bool) {
	v := newVolume(r, cfgAll[e%len(cfgAll)], "/enc")
	randTree(r, v, 12, 14, 30000)
	mem := newMemFS()
	mem.record = false
	mem.Load(v)
	q := &quietFS{ents: mem.ents, fail: []uint32{0, 25, 6}[r.Intn(3)], delayUs: []uint32{0, 500, 3000}[r.Intn(3)]}
	var acc filetree.FSAccessor = q
	if overSSH {
		s := newSshd(mem, newSigner(r))
		defer s.Close()
		kill := r.Intn(2) == 0
		s.OnPacket = func(cn *SConn, n int, p SPkt) Action {
			a := Action{}
			if randv2.Uint32N(4) == 0 {
				a.Delay = time.Duration(randv2.Uint32N(1000)) * time.Microsecond
			}
			if p.Seq > 40 && p.Type != fxInit {
				switch x := randv2.Uint32N(60); {
				case x == 0:
					a.Fail = 4
				case x == 1 && kill:
					a.Kill = 1 + int(randv2.Uint32N(4))
				}
			}
			return a
		}
		acc = newProvider(s, r)
	}
	h, err := openHandlers(v, acc, []int{1, 3, 32}[r.Intn(3)])
	if err != nil {
		return
	}
	q.armed = true
	var paths []string
	v.Walk(func(n *Node) { paths = append(paths, n.Path) })
	paths = append(paths, "/none", "/none/x", "//", "..")
	var n int64
	if !c.Guard("sessions", noInflight, func() {
		n = together(r, 10, func(g int, sr *rand.Rand) int64 {
			view := viewOf(g%2, h, 0)
			defer view.Close()
			k := int64(0)
			for ; k < 25; k++ {
				p := paths[sr.Intn(len(paths))]
				switch sr.Intn(3) {
				case 0:
					_, _ = view.Read(p)
				case 1:
					_, _ = view.List(p)
				default:
					_, _ = view.Stat(p)
				}
			}
			return k
		})
	}) {
		return
	}
	c17Evals(c, "proxy_calls", e, n)
}

func c17Requester(c *Ctx, r *rand.Rand, e int) {
	b := quietBackend{[]uint32{0, 20, 4}[r.Intn(3)], []uint32{0, 200, 2000}[r.Intn(3)]}
	rq := requester.New([]int{1, 2, 8}[r.Intn(3)], b, b)
	rq.Start()
	var n int64
	if !c.Guard("requests", noInflight, func() {
		n = together(r, 13, func(g int, sr *rand.Rand) int64 {
			k := int64(0)
			for ; k < 60; k++ {
				p := fmt.Sprint("k", sr.Intn(4))
				if g == 0 {
					if k%6 == 0 {
						rq.ClearCache()
						time.Sleep(time.Duration(sr.Intn(500)) * time.Microsecond)
					}
					continue
				}
				switch sr.Intn(3) {
				case 0:
					_, _ = rq.ReadFile(p)
				case 1:
					_, _ = rq.ReadDir(p)
				default:
					_, _ = rq.DecryptName(p, []byte{byte(sr.Intn(2))})
				}
			}
			return k
		})
	}) {
		return
	}
	rq.Stop()
	c17Evals(c, "requester_calls", e, n)
}

func c17Cache(c *Ctx, r *rand.Rand, e int) {
	f := filetree.NewFastCache(1 + r.Intn(16))
	n := together(r, 8, func(g int, sr *rand.Rand) int64 {
		k := int64(0)
		for ; k < 400; k++ {
			p := string(rune('a' + sr.Intn(24)))
			switch x := sr.Intn(40); {
			case x == 0:
				f.Clear()
			case x < 20:
				f.Store(p, p)
			default:
				m, _ := f.Find(p)
				_ = m.CiphertextPath
			}
		}
		return k
	})
	c17Evals(c, "cache_calls", e, n)
}

func c17Pool(c *Ctx, r *rand.Rand, e int) {
	w := newPoolWorld(r)
	s := newSshd(w.fs, newSigner(r))
	defer s.Close()
	kill := e%2 == 0
	s.OnPacket = func(cn *SConn, n int, p SPkt) Action {
		a := Action{}
		switch x := randv2.Uint32N(80); {
		case x == 0 && p.Type != fxInit:
			a.Fail = 4
		case x == 1 && kill:
			a.Kill = 1 + int(randv2.Uint32N(4))
		}
		return a
	}
	var p *backend.Provider = newProvider(s, r)
	var n int64
	if !c.Guard("backend calls", noInflight, func() {
		n = together(r, 12, func(g int, sr *rand.Rand) int64 {
			k := int64(0)
			for ; k < 15; k++ {
				_, _ = w.do(p, w.gen(sr, 10))
			}
			return k
		})
	}) {
		return
	}
	c17Evals(c, "pool_calls", e, n)
}

func c17Crypt(c *Ctx, r *rand.Rand, e int) {
	be := cryptocore.BackendGoGCM
	if e%2 == 1 {
		be = cryptocore.BackendAESSIV
	}
	cc := cryptocore.New(randBytes(r, 32), be, 128, e%4 < 2, false)
	ce := contentenc.New(cc, 4096, false)
	nt := nametransform.New(cc.EMECipher, true, true)
	id := randBytes(r, 16)
	iv := randBytes(r, 16)
	n := together(r, 8, func(g int, sr *rand.Rand) int64 {
		k := int64(0)
		for ; k < 20; k++ {
			nb := 1 + sr.Intn(70)
			blocks := make([][]byte, nb)
			for i := range blocks {
				blocks[i] = randBytes(sr, 1+sr.Intn(4096))
				if i < nb-1 {
					blocks[i] = randBytes(sr, 4096)
				}
			}
			ct := ce.EncryptBlocks(blocks, 3, id)
			_, _ = ce.DecryptBlocks(ct, 3, id)
			if sr.Intn(2) == 0 {
				ct[sr.Intn(len(ct))] ^= 1
				_, _ = ce.DecryptBlocks(ct, 3, id)
			}
			nm := nt.EncryptName(fmt.Sprint("name", sr.Int()), iv)
			_, _ = nt.DecryptName(nm, iv)
		}
		return k
	})
	c17Evals(c, "crypt_calls", e, n)
}

// c17Program: the program itself, built with the race detector, with clients that log in,
// fail to, break off, open several channels and work concurrently.
func c17Program(c *Ctx, r *rand.Rand, e int) {
	w := newWorld(c, r, nil)
	defer w.Close()
	w.env = []string{"GORACE=halt_on_error=0 exitcode=0 log_path=" + filepath.Join(c.Dir, fmt.Sprint("binrace", e))}
	w.sshd.OnPacket = func(cn *SConn, n int, p SPkt) Action {
		a := Action{}
		if p.Seq > 30 && p.Type != fxInit {
			switch randv2.Uint32N(40) {
			case 0:
				a.Fail = 4
			case 1:
				a.Kill = 1
			case 2:
				a.Delay = time.Duration(randv2.Uint32N(2000)) * time.Microsecond
			}
		}
		return a
	}
	var args []string
	if e%2 == 0 {
		args = []string{"-e"}
	}
	p := w.up(args...)
	if p == nil {
		return
	}
	defer p.Kill()
	var paths []string
	w.v.Walk(func(n *Node) { paths = append(paths, n.Path) })
	paths = append(paths, "/none", "/none/x")
	n := together(r, 12, func(g int, sr *rand.Rand) int64 {
		done := int64(0)
		for k := 0; k < 8; k++ {
			switch sr.Intn(6) {
			case 0:
				if cl, err := sshClient(w.User, ssh.Password("wrong")); err == nil {
					_ = cl.Close()
				}
				continue
			case 1:
				if nc, err := net.Dial("tcp", proxyAddr); err == nil {
					_, _ = nc.Write([]byte("SSH-2.0-x\r\n")[:sr.Intn(12)])
					_ = nc.Close()
				}
				continue
			}
			cl, err := sshClient(w.User, ssh.Password(w.Password))
			if err != nil {
				continue
			}
			if sr.Intn(3) == 0 {
				patiently(func() { _, _, _ = cl.OpenChannel("direct-tcpip", nil) })
			}
			var ws sync.WaitGroup
			for ch := 0; ch < 1+sr.Intn(3); ch++ {
				seed := sr.Int63()
				ws.Add(1)
				go func() {
					defer ws.Done()
					r := rand.New(rand.NewSource(seed))
					sc, err := sftp.NewClient(cl)
					if err != nil {
						return
					}
					v := &libView{sc, func() {}}
					for i := 0; i < 12; i++ {
						p := paths[r.Intn(len(paths))]
						switch r.Intn(4) {
						case 0:
							_, _ = v.Read(p)
						case 1:
							_, _ = v.List(p)
						case 2:
							_ = sc.Mkdir(p)
						default:
							_, _ = v.Stat(p)
						}
					}
					if r.Intn(2) == 0 {
						_ = sc.Close()
					}
				}()
			}
			if sr.Intn(4) == 0 {
				time.Sleep(time.Duration(sr.Intn(20)) * time.Millisecond)
				_ = cl.Close()
			}
			ws.Wait()
			_ = cl.Close()
			done++
		}
		return done
	})
	c17Evals(c, "program_sessions", e, n)
	time.Sleep(100 * time.Millisecond)
}
