package main

import (
	"bytes"
	"crypto/ed25519"
	"crypto/rand"
	"crypto/rsa"
	"crypto/x509"
	"encoding/json"
	"encoding/pem"
	"fmt"
	mrand "math/rand"
	"net"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"
	"unsafe"

	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
	"golang.org/x/crypto/ssh/knownhosts"
)

// ---- pseudo terminal ----

type Pty struct {
	master, slave *os.File
	mu            sync.Mutex
	out           bytes.Buffer
}

func ioctl(fd uintptr, req uintptr, arg unsafe.Pointer) error {
	_, _, e := syscall.Syscall(syscall.SYS_IOCTL, fd, req, uintptr(arg))
	if e != 0 {
		return e
	}
	return nil
}

func openPty() (*Pty, error) {
	mfd, err := syscall.Open("/dev/ptmx", syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		return nil, err
	}
	var unlock int32
	var n uint32
	if err := ioctl(uintptr(mfd), syscall.TIOCSPTLCK, unsafe.Pointer(&unlock)); err != nil {
		return nil, err
	}
	if err := ioctl(uintptr(mfd), syscall.TIOCGPTN, unsafe.Pointer(&n)); err != nil {
		return nil, err
	}
	sfd, err := syscall.Open(fmt.Sprintf("/dev/pts/%d", n), syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC, 0)
	if err != nil {
		// the slave may be out of sight: TIOCGPTPEER needs no path
		r, _, e := syscall.Syscall(syscall.SYS_IOCTL, uintptr(mfd), 0x5441, uintptr(syscall.O_RDWR|syscall.O_NOCTTY|syscall.O_CLOEXEC))
		if e != 0 {
			return nil, err
		}
		sfd = int(r)
	}
	p := &Pty{master: os.NewFile(uintptr(mfd), "ptmx"), slave: os.NewFile(uintptr(sfd), "pts")}
	go func() {
		b := make([]byte, 4096)
		for {
			k, err := p.master.Read(b)
			if k > 0 {
				p.mu.Lock()
				p.out.Write(b[:k])
				p.mu.Unlock()
			}
			if err != nil {
				return
			}
		}
	}()
	return p, nil
}

func (p *Pty) echo() bool {
	var t syscall.Termios
	if err := ioctl(p.slave.Fd(), syscall.TCGETS, unsafe.Pointer(&t)); err != nil {
		return true
	}
	return t.Lflag&syscall.ECHO != 0
}

func (p *Pty) output() string {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.out.String()
}

func (p *Pty) Close() { _ = p.master.Close(); _ = p.slave.Close() }

// ---- the real program ----

type lockedBuf struct {
	mu sync.Mutex
	b  bytes.Buffer
}

func (l *lockedBuf) Write(p []byte) (int, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	if l.b.Len() > 32<<20 {
		return len(p), nil
	}
	return l.b.Write(p)
}
func (l *lockedBuf) String() string { l.mu.Lock(); defer l.mu.Unlock(); return l.b.String() }

// Proxy is one run of the gocryptsftp binary.
type Proxy struct {
	cmd      *exec.Cmd
	pty      *Pty
	out, err lockedBuf
	tmp      string
	dir      string
	done     chan struct{}
	prompts  int32
	unsafeIn int32 // answers given although echo was on
	exit     int
	answers  [][]byte
	stop     chan struct{}
}

const proxyAddr = "127.0.0.1:9022"

// listening looks for a listening socket on port 9022 without connecting to it.
func listening() bool {
	for _, f := range []string{"/proc/net/tcp", "/proc/net/tcp6"} {
		b, _ := os.ReadFile(f)
		for _, l := range strings.Split(string(b), "\n") {
			w := strings.Fields(l)
			if len(w) > 3 && strings.HasSuffix(w[1], ":233E") && w[3] == "0A" {
				return true
			}
		}
	}
	return false
}

// startProxy starts the program with a terminal as standard input. Each time it switches
// the echo off to read a password, the next answer is typed; without answers left it gets
// an end of file.
func startProxy(c *Ctx, args []string, answers [][]byte, env ...string) *Proxy {
	return startProxyOn(c, false, nil, args, answers, env...)
}

// startProxyOn: with tty, standard output and error are the terminal as well; a stdin
// replaces the terminal as standard input.
func startProxyOn(c *Ctx, tty bool, stdin *os.File, args []string, answers [][]byte, env ...string) *Proxy {
	bin := os.Getenv("VH_BIN")
	if bin == "" {
		panic("harness: no binary")
	}
	for i := 0; listening() && i < 1500; i++ {
		time.Sleep(10 * time.Millisecond)
	}
	if listening() {
		c.Inconclusive("port 9022 is in use")
		return nil
	}
	p := &Proxy{answers: answers, done: make(chan struct{}), stop: make(chan struct{}), exit: -1}
	var err error
	p.dir, err = os.MkdirTemp(c.Dir, "proxy")
	must(err)
	p.tmp = filepath.Join(p.dir, "tmp")
	must(os.Mkdir(p.tmp, 0700))
	p.pty, err = openPty()
	if err != nil {
		c.Inconclusive("no pseudo terminal: %s", err)
		return nil
	}
	p.cmd = exec.Command(bin, args...)
	p.cmd.Dir = p.dir
	p.cmd.Stdin = p.pty.slave
	p.cmd.Stdout = &p.out
	p.cmd.Stderr = &p.err
	if tty {
		p.cmd.Stdout, p.cmd.Stderr = p.pty.slave, p.pty.slave
	}
	if stdin != nil {
		p.cmd.Stdin = stdin
	}
	p.cmd.Env = append([]string{"PATH=" + os.Getenv("PATH"), "HOME=" + p.dir, "TMPDIR=" + p.tmp, "GOTRACEBACK=all"}, env...)
	p.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	must(p.cmd.Start())
	go func() {
		_ = p.cmd.Wait()
		p.exit = p.cmd.ProcessState.ExitCode()
		close(p.done)
	}()
	go p.type_()
	return p
}

func (p *Proxy) type_() {
	i := 0
	for {
		select {
		case <-p.done:
			return
		case <-p.stop:
			return
		case <-time.After(time.Millisecond):
		}
		if p.pty.echo() {
			continue
		}
		atomic.AddInt32(&p.prompts, 1)
		if i < len(p.answers) {
			_, _ = p.pty.master.Write(append(append([]byte{}, p.answers[i]...), '\n'))
		} else {
			_, _ = p.pty.master.Write([]byte{4})
		}
		i++
		// until the answer has been taken; if the next prompt follows too quickly to be seen,
		// an empty input queue tells
		for quiet := 0; !p.pty.echo() && quiet < 600; {
			if i < len(p.answers) && inq(p.pty) == 0 {
				quiet++
			} else {
				quiet = 0
			}
			select {
			case <-p.done:
				return
			case <-p.stop:
				return
			case <-time.After(500 * time.Microsecond):
			}
		}
	}
}

func (p *Proxy) exited() bool {
	select {
	case <-p.done:
		return true
	default:
		return false
	}
}

// await returns "listening", "exited" or "stuck".
func (p *Proxy) await(limit time.Duration) string {
	end := time.Now().Add(limit)
	for time.Now().Before(end) {
		if p.exited() {
			return "exited"
		}
		if listening() {
			return "listening"
		}
		time.Sleep(2 * time.Millisecond)
	}
	return "stuck"
}

func (p *Proxy) Kill() {
	close(p.stop)
	_ = p.cmd.Process.Kill()
	<-p.done
	p.pty.Close()
}

// Dump asks the Go runtime for its goroutines (and ends the process).
func (p *Proxy) Dump() string {
	_ = p.cmd.Process.Signal(syscall.SIGQUIT)
	select {
	case <-p.done:
	case <-time.After(5 * time.Second):
	}
	return clip(p.err.String(), 5000)
}

// ---- an environment for the program ----

type World struct {
	c        *Ctx
	dir      string
	v        *Volume
	fs       *MemFS
	sshd     *Sshd
	key      ssh.Signer
	Cfg      map[string]interface{}
	Remote   map[string]interface{}
	User     string
	Password string
	KeyPass  []byte
	hosts    string
	keyPath  string
	env      []string // of the program
}

var worldN int64

func pemKey(r *mrand.Rand, pass []byte) ([]byte, ssh.Signer) {
	k, err := rsa.GenerateKey(rand.Reader, 2048)
	must(err)
	s, err := ssh.NewSignerFromKey(k)
	must(err)
	b := &pem.Block{Type: "RSA PRIVATE KEY", Bytes: x509.MarshalPKCS1PrivateKey(k)}
	if pass != nil {
		b, err = x509.EncryptPEMBlock(rand.Reader, b.Type, b.Bytes, pass, x509.PEMCipherAES256)
		must(err)
	}
	return pem.EncodeToMemory(b), s
}

var _ = ed25519.SeedSize

func newWorld(c *Ctx, r *mrand.Rand, keyPass []byte) *World {
	w := &World{c: c, User: fmt.Sprintf("user%x", randBytes(r, 3)), Password: fmt.Sprintf("Secret-%x", randBytes(r, 8)), KeyPass: keyPass}
	w.dir = filepath.Join(c.Dir, fmt.Sprintf("world%d", atomic.AddInt64(&worldN, 1)))
	must(os.Mkdir(w.dir, 0700))
	w.v = newVolume(r, cfgAll[r.Intn(16)], []string{"/enc", "/srv/enc/"}[r.Intn(2)])
	randTree(r, w.v, 4, 8, 200000)
	w.fs = newMemFS()
	w.fs.record = false
	w.fs.Load(w.v)
	w.sshd = newSshd(w.fs, newSigner(r))
	pm, s := pemKey(r, keyPass)
	w.key = s
	w.keyPath = filepath.Join(w.dir, "id")
	must(os.WriteFile(w.keyPath, pm, 0600))
	w.hosts = filepath.Join(w.dir, "known_hosts")
	w.setHosts(knownhosts.Line([]string{w.sshd.Addr}, w.sshd.signer.PublicKey()))
	w.Remote = map[string]interface{}{"Addr": w.sshd.Addr, "FileRoot": w.v.RootPath, "User": "remote" + w.User, "PrivateKeyPath": w.keyPath}
	w.Cfg = map[string]interface{}{"ProxyUser": w.User, "ProxyPassword": w.Password, "KnownHostsPath": w.hosts, "Remote": w.Remote}
	return w
}

func (w *World) setHosts(lines ...string) {
	must(os.WriteFile(w.hosts, []byte(strings.Join(lines, "\n")+"\n"), 0600))
}

func (w *World) Close() { w.sshd.Close(); _ = os.RemoveAll(w.dir) }

func (w *World) writeCfg() string {
	b, err := json.MarshalIndent(w.Cfg, "", "  ")
	must(err)
	f := filepath.Join(w.dir, "config.json")
	must(os.WriteFile(f, b, 0600))
	return f
}

func (w *World) answers() [][]byte {
	var a [][]byte
	if w.KeyPass != nil {
		a = append(a, w.KeyPass)
	}
	return append(a, w.v.Password)
}

// up starts the program on this world and waits until it serves.
func (w *World) up(args ...string) *Proxy {
	p := startProxy(w.c, append([]string{"-c", w.writeCfg()}, args...), w.answers(), w.env...)
	if p == nil {
		return nil
	}
	switch p.await(60 * time.Second) {
	case "listening":
		return p
	case "exited":
		w.c.Violate("no-start", "the proxy does not start with a complete configuration: exit %d\n%s%s", p.exit, clip(p.out.String(), 1500), clip(p.err.String(), 3000))
	default:
		w.c.Violate("no-start", "the proxy did not start: %s%s", p.out.String(), p.err.String())
	}
	p.Kill()
	return nil
}

// ---- clients ----

func sshClient(user string, auth ...ssh.AuthMethod) (*ssh.Client, error) {
	return sshClientT(30*time.Second, user, auth...)
}

func sshClientT(limit time.Duration, user string, auth ...ssh.AuthMethod) (*ssh.Client, error) {
	nc, err := net.DialTimeout("tcp", proxyAddr, limit)
	if err != nil {
		return nil, err
	}
	_ = nc.SetDeadline(time.Now().Add(limit))
	cc, ch, rq, err := ssh.NewClientConn(nc, proxyAddr, &ssh.ClientConfig{User: user, Auth: auth, HostKeyCallback: ssh.InsecureIgnoreHostKey()})
	if err != nil {
		_ = nc.Close()
		return nil, err
	}
	_ = nc.SetDeadline(time.Time{})
	return ssh.NewClient(cc, ch, rq), nil
}

// service logs in as the configured user and compares a listing, an attribute and a file
// with the model. The whole must finish within the limit. "" if all is well.
func (w *World) service(r *mrand.Rand, limit time.Duration) (problem string, timeout bool) {
	type res struct{ s string }
	done := make(chan res, 1)
	nc, err := net.DialTimeout("tcp", proxyAddr, limit)
	if err != nil {
		return "cannot connect: " + err.Error(), false
	}
	var expired int32
	tm := time.AfterFunc(limit, func() { atomic.StoreInt32(&expired, 1); _ = nc.Close() })
	defer tm.Stop()
	dirs, files := w.v.All()
	d, f := dirs[r.Intn(len(dirs))], files[r.Intn(len(files))]
	odd := r.Intn(4)
	go func() {
		cc, ch, rq, err := ssh.NewClientConn(nc, proxyAddr, &ssh.ClientConfig{User: w.User, Auth: []ssh.AuthMethod{ssh.Password(w.Password)}, HostKeyCallback: ssh.InsecureIgnoreHostKey()})
		if err != nil {
			done <- res{"login: " + err.Error()}
			return
		}
		cl := ssh.NewClient(cc, ch, rq)
		defer cl.Close()
		if odd == 0 { // what common clients send besides
			for k := 0; k < 20; k++ {
				if _, _, err := cl.SendRequest("keepalive@openssh.com", true, nil); err != nil {
					done <- res{"keepalive: " + err.Error()}
					return
				}
			}
			if s, err := cl.NewSession(); err == nil {
				_ = s.Setenv("LANG", "C")
				_ = s.Close()
			}
		}
		sc, err := sftp.NewClient(cl)
		if err != nil {
			done <- res{"sftp: " + err.Error()}
			return
		}
		defer sc.Close()
		v := &libView{sc, func() {}}
		l, err := v.List(d.Path)
		if err != nil {
			done <- res{"list " + d.Path + ": " + err.Error()}
			return
		}
		if x := listingDiff(l, d.Kids, false); x != "" {
			done <- res{"list " + d.Path + ": " + x}
			return
		}
		b, err := v.Read(f.Path)
		if err != nil {
			done <- res{"read " + f.Path + ": " + err.Error()}
			return
		}
		if !bytes.Equal(b, f.PT) {
			done <- res{"read " + f.Path + ": " + diffDesc(b, f.PT)}
			return
		}
		done <- res{""}
	}()
	x := <-done
	_ = nc.Close()
	return x.s, x.s != "" && atomic.LoadInt32(&expired) != 0
}

var unanswered int32

// patiently does not wait for f longer than half a minute, and leaves out such calls when a few
// were not answered: whether they are answered is not what the caller looks at.
func patiently(f func()) {
	if atomic.LoadInt32(&unanswered) >= 3 {
		return
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		f()
	}()
	select {
	case <-done:
	case <-time.After(30 * time.Second):
		atomic.AddInt32(&unanswered, 1)
	}
}
