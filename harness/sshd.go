package main

import (
	"crypto/ecdsa"
	"crypto/ed25519"
	"crypto/elliptic"
	crand "crypto/rand"
	"crypto/rsa"
	"encoding/binary"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"path"
	"sync"
	"sync/atomic"
	"time"

	"golang.org/x/crypto/ssh"
)

// Action tells the remote what to do with a packet.
type Action struct {
	Delay time.Duration
	Wait  <-chan struct{} // hold the reply until closed
	Fail  uint32          // answer with this status instead
	Kill  int             // 1: cut the TCP connection instead of replying; 2: close only the sftp channel; 3: after half a reply; 4: cut right after the reply
}

// SPkt is one packet of the per-connection log.
type SPkt struct {
	Seq    int64  `json:"seq"` // global arrival order
	Type   byte   `json:"-"`
	Name   string `json:"type"`
	Path   string `json:"path,omitempty"`
	Handle string `json:"handle,omitempty"`
	Flags  uint32 `json:"flags,omitempty"`
}

type AuthTry struct {
	User   string
	Method string
	Key    string
}

// SConn is the remote's view of one connection.
type SConn struct {
	ID      int
	mu      sync.Mutex
	pkts    []SPkt
	open    map[string]string // handle -> path
	unrep   int               // packets without a reply
	dead    bool              // closed or cut
	nc      net.Conn
	started int64
	users   int64 // op-starting packets seen
	ended   int32 // the SSH connection is over
}

// Sshd is an in-process SSH + SFTP v3 server over a MemFS.
type Sshd struct {
	Addr     string
	fs       *MemFS
	ln       net.Listener
	signer   ssh.Signer
	mu       sync.Mutex
	conns    []*SConn
	auth     []AuthTry
	tcp      int64 // accepted TCP connections
	shook    int64 // completed handshakes
	live     int64 // open connections
	maxLive  int64
	seq      int64
	down     int32 // refuse: close accepted connections at once
	OnPacket func(c *SConn, n int, p SPkt) Action
	// OnOverlap is called when an operation starts on a connection that is still in use.
	OnOverlap func(c *SConn, p SPkt, why string)
	OnAccept  func() bool           // false: cut at once
	OnServe   func()                // before the handshake
	Readlink  func(p string) string // the target READLINK answers with; "" or nil: not supported
}

func newSigner(r *rand.Rand) ssh.Signer {
	_, k, err := ed25519.GenerateKey(rndReader{r})
	must(err)
	s, err := ssh.NewSignerFromKey(k)
	must(err)
	return s
}

// newSignerOf gives an Ed25519, ECDSA or RSA key.
func newSignerOf(r *rand.Rand, kind int) ssh.Signer {
	var k interface{}
	var err error
	switch kind % 3 {
	case 1:
		k, err = ecdsa.GenerateKey(elliptic.P256(), crand.Reader)
	case 2:
		k, err = rsa.GenerateKey(crand.Reader, 2048)
	default:
		return newSigner(r)
	}
	must(err)
	s, err := ssh.NewSignerFromKey(k)
	must(err)
	return s
}

type rndReader struct{ r *rand.Rand }

func (x rndReader) Read(b []byte) (int, error) { return x.r.Read(b) }

func edSeedSigner(r *rand.Rand) (ssh.Signer, ed25519.PrivateKey) {
	k := ed25519.NewKeyFromSeed(randBytes(r, 32))
	s, err := ssh.NewSignerFromKey(k)
	must(err)
	return s, k
}

func newSshd(fs *MemFS, signer ssh.Signer) *Sshd { return newSshdAt("127.0.0.1:0", fs, signer) }

func newSshdAt(addr string, fs *MemFS, signer ssh.Signer) *Sshd {
	ln, err := net.Listen("tcp", addr)
	for i := 0; err != nil && i < 200; i++ {
		time.Sleep(20 * time.Millisecond)
		ln, err = net.Listen("tcp", addr)
	}
	must(err)
	s := &Sshd{Addr: ln.Addr().String(), fs: fs, ln: ln, signer: signer}
	go s.accept()
	return s
}

func (s *Sshd) accept() {
	for {
		nc, err := s.ln.Accept()
		if err != nil {
			return
		}
		atomic.AddInt64(&s.tcp, 1)
		if atomic.LoadInt32(&s.down) != 0 || (s.OnAccept != nil && !s.OnAccept()) {
			_ = nc.Close()
			continue
		}
		go s.serve(nc)
	}
}

func (s *Sshd) Close() {
	_ = s.ln.Close()
	s.KillAll()
}

// KillAll cuts every live connection.
func (s *Sshd) KillAll() int {
	n := 0
	for _, c := range s.Conns() {
		c.mu.Lock()
		if !c.dead {
			n++
			c.dead = true
			_ = c.nc.Close()
		}
		c.mu.Unlock()
	}
	return n
}

func (s *Sshd) Conns() []*SConn {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]*SConn(nil), s.conns...)
}

func (s *Sshd) Live() int64 { return atomic.LoadInt64(&s.live) }

func (s *Sshd) AuthTries() []AuthTry {
	s.mu.Lock()
	defer s.mu.Unlock()
	return append([]AuthTry(nil), s.auth...)
}

func (s *Sshd) serve(nc net.Conn) {
	if s.OnServe != nil {
		s.OnServe()
	}
	cfg := &ssh.ServerConfig{
		NoClientAuth: false,
		PublicKeyCallback: func(m ssh.ConnMetadata, k ssh.PublicKey) (*ssh.Permissions, error) {
			s.mu.Lock()
			s.auth = append(s.auth, AuthTry{m.User(), "publickey", string(k.Marshal())})
			s.mu.Unlock()
			return nil, nil
		},
		PasswordCallback: func(m ssh.ConnMetadata, pw []byte) (*ssh.Permissions, error) {
			s.mu.Lock()
			s.auth = append(s.auth, AuthTry{m.User(), "password", string(pw)})
			s.mu.Unlock()
			return nil, fmt.Errorf("no")
		},
	}
	cfg.AuthLogCallback = func(m ssh.ConnMetadata, method string, err error) {
		if method != "none" {
			return
		}
		s.mu.Lock()
		s.auth = append(s.auth, AuthTry{m.User(), "none", ""})
		s.mu.Unlock()
	}
	cfg.AddHostKey(s.signer)
	sc, chans, reqs, err := ssh.NewServerConn(nc, cfg)
	if err != nil {
		_ = nc.Close()
		return
	}
	atomic.AddInt64(&s.shook, 1)
	go ssh.DiscardRequests(reqs)
	s.mu.Lock()
	c := &SConn{ID: len(s.conns), open: map[string]string{}, nc: nc}
	s.conns = append(s.conns, c)
	l := atomic.AddInt64(&s.live, 1)
	if l > s.maxLive {
		s.maxLive = l
	}
	s.mu.Unlock()
	go func() {
		_ = sc.Wait()
		atomic.StoreInt32(&c.ended, 1)
		c.mu.Lock()
		c.dead = true
		c.mu.Unlock()
		atomic.AddInt64(&s.live, -1)
	}()
	for nch := range chans {
		if nch.ChannelType() != "session" {
			_ = nch.Reject(ssh.UnknownChannelType, "")
			continue
		}
		ch, rq, err := nch.Accept()
		if err != nil {
			continue
		}
		go func() {
			for r := range rq {
				ok := r.Type == "subsystem"
				_ = r.Reply(ok, nil)
				if ok {
					go s.sftp(c, nc, ch)
				}
			}
		}()
	}
}

type sreq struct {
	p    SPkt
	n    int
	id   uint32
	body rd
}

func (s *Sshd) sftp(c *SConn, nc net.Conn, ch ssh.Channel) {
	q := make(chan sreq, 4096)
	defer close(q)
	handles := map[string]*struct {
		data []byte
		ent  *memEnt
		list []os.FileInfo
		pos  int
	}{}
	hn := 0
	go func() {
		for r := range q {
			act := Action{}
			if s.OnPacket != nil {
				act = s.OnPacket(c, r.n, r.p)
			}
			if act.Delay > 0 {
				time.Sleep(act.Delay)
			}
			if act.Wait != nil {
				<-act.Wait
			}
			switch act.Kill {
			case 1:
				c.mu.Lock()
				c.dead = true
				c.mu.Unlock()
				_ = nc.Close()
				continue
			case 2:
				c.mu.Lock()
				c.dead = true
				c.mu.Unlock()
				_ = ch.Close()
				continue
			}
			var out []byte
			status := func(code uint32) []byte {
				return pkt(fxStatus, cat(be32(r.id), be32(code), sstr(fmt.Sprintf("status %d", code)), sstr("")))
			}
			opened := ""
			closedH := ""
			switch {
			case r.p.Type == fxInit:
				out = pkt(fxVersion, be32(3))
			case r.p.Type == fxClose:
				closedH = r.p.Handle
				delete(handles, r.p.Handle)
				out = status(act.Fail)
			case act.Fail != 0:
				out = status(act.Fail)
			default:
				switch r.p.Type {
				case fxOpen, fxOpendir:
					s.fs.mu.Lock()
					e := s.fs.ents[path.Clean(r.p.Path)]
					s.fs.mu.Unlock()
					if e == nil {
						out = status(2)
					} else if e.info.isDir != (r.p.Type == fxOpendir) {
						out = status(4)
					} else {
						hn++
						opened = fmt.Sprintf("h%d-%d", c.ID, hn)
						h := &struct {
							data []byte
							ent  *memEnt
							list []os.FileInfo
							pos  int
						}{e.data, e, e.kids, 0}
						handles[opened] = h
						out = pkt(fxHandle, cat(be32(r.id), sstr(opened)))
					}
				case fxRead:
					h := handles[r.p.Handle]
					off := r.body.u64()
					n := int(r.body.u32())
					if h == nil {
						out = status(4)
					} else if off >= uint64(len(h.data)) {
						out = status(1)
					} else {
						end := min(int(off)+n, len(h.data))
						out = pkt(fxData, cat(be32(r.id), sstr(string(h.data[off:end]))))
					}
				case fxReaddir:
					h := handles[r.p.Handle]
					if h == nil {
						out = status(4)
					} else if h.pos >= len(h.list) {
						out = status(1)
					} else {
						end := min(h.pos+64, len(h.list))
						b := be32(uint32(end - h.pos))
						for _, i := range h.list[h.pos:end] {
							b = cat(b, sstr(i.Name()), sstr("long"), attrBytes(i))
						}
						h.pos = end
						out = pkt(fxName, cat(be32(r.id), b))
					}
				case fxStat, fxLstat:
					s.fs.mu.Lock()
					e := s.fs.ents[path.Clean(r.p.Path)]
					s.fs.mu.Unlock()
					if e == nil {
						out = status(2)
					} else {
						out = pkt(fxAttrs, cat(be32(r.id), attrBytes(e.info)))
					}
				case fxFstat:
					if h := handles[r.p.Handle]; h != nil {
						out = pkt(fxAttrs, cat(be32(r.id), attrBytes(h.ent.info)))
					} else {
						out = status(4)
					}
				case fxRealpath:
					out = pkt(fxName, cat(be32(r.id), be32(1), sstr(path.Clean("/"+r.p.Path)), sstr("l"), be32(0)))
				case fxReadlink:
					t := ""
					if s.Readlink != nil {
						t = s.Readlink(r.p.Path)
					}
					if t == "" {
						out = status(8)
					} else {
						out = pkt(fxName, cat(be32(r.id), be32(1), sstr(t), sstr("l"), be32(0)))
					}
				default:
					out = status(8)
				}
			}
			// the state changes before the reply leaves: the next packet of the client
			// can only be caused by it
			c.mu.Lock()
			c.unrep--
			if opened != "" {
				c.open[opened] = r.p.Path
			}
			delete(c.open, closedH)
			c.mu.Unlock()
			if act.Kill == 3 {
				_, _ = ch.Write(out[:len(out)/2])
				time.Sleep(5 * time.Millisecond)
				c.mu.Lock()
				c.dead = true
				c.mu.Unlock()
				_ = nc.Close()
				continue
			}
			_, _ = ch.Write(out)
			if act.Kill == 4 {
				time.Sleep(5 * time.Millisecond)
				c.mu.Lock()
				c.dead = true
				c.mu.Unlock()
				_ = nc.Close()
			}
		}
	}()
	n := 0
	for {
		t, body, err := readPkt(ch)
		if err != nil {
			return
		}
		r := sreq{n: n, body: rd{b: body}}
		n++
		p := SPkt{Seq: atomic.AddInt64(&s.seq, 1), Type: t, Name: fxNames[t]}
		if t != fxInit {
			r.id = r.body.u32()
			switch t {
			case fxOpen:
				p.Path = r.body.str()
				p.Flags = r.body.u32()
			case fxClose, fxRead, fxWrite, fxFstat, fxFsetstat, fxReaddir:
				p.Handle = r.body.str()
			default:
				p.Path = r.body.str()
			}
		}
		starts := t == fxOpen || t == fxOpendir || t == fxStat || t == fxLstat
		c.mu.Lock()
		if starts {
			why := ""
			for h, f := range c.open {
				why = fmt.Sprintf("handle %s of %s is still open", h, f)
			}
			if c.unrep > 0 {
				why = fmt.Sprintf("%d packets have no reply yet (last %s %s)", c.unrep, c.pkts[len(c.pkts)-1].Name, c.pkts[len(c.pkts)-1].Path)
			}
			if why != "" && s.OnOverlap != nil {
				s.OnOverlap(c, p, why)
			}
			c.users++
		}
		c.unrep++
		c.pkts = append(c.pkts, p)
		c.mu.Unlock()
		r.p = p
		select {
		case q <- r:
		default:
			_ = nc.Close()
			return
		}
	}
}

func (c *SConn) gone() bool { return atomic.LoadInt32(&c.ended) != 0 }

func (c *SConn) Packets() []SPkt {
	c.mu.Lock()
	defer c.mu.Unlock()
	return append([]SPkt(nil), c.pkts...)
}

func attrBytes(i os.FileInfo) []byte {
	b := be32(1 | 4 | 8)
	b = append(b, be64(uint64(i.Size()))...)
	b = append(b, be32(permBits(i.Mode()))...)
	mt := make([]byte, 8)
	binary.BigEndian.PutUint32(mt, uint32(i.ModTime().Unix()))
	binary.BigEndian.PutUint32(mt[4:], uint32(i.ModTime().Unix()))
	return append(b, mt...)
}

// clientConfig for backend.NewProvider.
func (s *Sshd) clientConfig(key ssh.Signer) *ssh.ClientConfig {
	return &ssh.ClientConfig{User: "remoteuser", Auth: []ssh.AuthMethod{ssh.PublicKeys(key)}, HostKeyCallback: ssh.FixedHostKey(s.signer.PublicKey())}
}

var _ = io.EOF
