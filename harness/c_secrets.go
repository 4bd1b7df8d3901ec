package main

import (
	"bytes"
	"encoding/base32"
	"encoding/base64"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"io"
	"math/rand"
	"net"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
	"time"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/tlog"
	"golang.org/x/crypto/ssh"
	"golang.org/x/crypto/ssh/knownhosts"
)

func init() {
	register("C27", &Check{Run: runC27})
	subcommands["secrets"] = secretsHelper
}

// ---- the scanner ----

// needle is one representation of a piece of a secret.
type needle struct {
	secret, form, text string
	norm               int // 0: in the output as is, 1: in the output reduced to hex digits in lower case
}

type Scanner struct {
	needles []needle
	scanned int64
}

const secretWin = 8 // bytes of a secret that must not appear in a row

func (s *Scanner) add(name string, secret []byte) {
	if len(secret) < secretWin {
		panic("harness: secret too short")
	}
	dedup := map[string]bool{}
	put := func(form, text string, norm int) {
		if !dedup[form+text] {
			dedup[form+text] = true
			s.needles = append(s.needles, needle{name, form, text, norm})
		}
	}
	dec := func(b []byte, sep string) string {
		var l []string
		for _, x := range b {
			l = append(l, strconv.Itoa(int(x)))
		}
		return strings.Join(l, sep)
	}
	for i := 0; i+secretWin <= len(secret); i++ {
		w := secret[i : i+secretWin]
		put("raw", string(w), 0)
		put("hex", hex.EncodeToString(w), 1)
		put("decimal", dec(w, " "), 0)
		put("decimal", dec(w, ", "), 0)
		put("decimal", dec(w, ","), 0)
	}
	windows := func(form, t string, n int) {
		for i := 0; i+n <= len(t); i++ {
			put(form, t[i:i+n], 0)
		}
	}
	for off := 0; off < 3; off++ {
		b := secret[off:]
		b = b[:len(b)-len(b)%3]
		windows("base64", base64.StdEncoding.EncodeToString(b), 12)
		windows("base64url", base64.URLEncoding.EncodeToString(b), 12)
	}
	windows("base32", base32.StdEncoding.EncodeToString(secret[:len(secret)-len(secret)%5]), 13)
	q := strconv.Quote(string(secret))
	windows("quoted", q[1:len(q)-1], 16)
	u := strings.ToValidUTF8(string(secret), "\ufffd")
	if u != string(secret) && strings.Count(u, "\ufffd") < 12 {
		windows("text", u, 12)
	}
}

func hexOnly(s string) string {
	s = strings.ReplaceAll(strings.ToLower(s), "0x", "")
	b := make([]byte, 0, len(s))
	for i := 0; i < len(s); i++ {
		switch x := s[i]; {
		case x >= '0' && x <= '9', x >= 'a' && x <= 'f':
			b = append(b, x)
		case x == '-', x == ':', x == ' ', x == '\n', x == '\r', x == '\t', x == ',':
		default:
			b = append(b, '#')
		}
	}
	return string(b)
}

// find returns a description of the first secret found, or "".
func (s *Scanner) find(text string) string {
	atomic.AddInt64(&s.scanned, int64(len(text)))
	var hx string
	if text != "" {
		hx = hexOnly(text)
	}
	for _, n := range s.needles {
		t := text
		if n.norm == 1 {
			t = hx
		}
		if i := strings.Index(t, n.text); i >= 0 {
			lo, hi := i-60, i+80
			if lo < 0 {
				lo = 0
			}
			if hi > len(t) {
				hi = len(t)
			}
			return fmt.Sprintf("the %s (%s) in %q", n.secret, n.form, t[lo:hi])
		}
	}
	return ""
}

func secretWord(r *rand.Rand, n int) []byte {
	const abc = "abcdefghijkmnopqrstuvwxyzABCDEFGHJKLMNPQRSTUVWXYZ23456789"
	b := make([]byte, n)
	for i := range b {
		b[i] = abc[r.Intn(len(abc))]
	}
	return b
}

// files lists everything below dir, with contents.
func filesBelow(dir string) map[string]string {
	out := map[string]string{}
	_ = filepath.Walk(dir, func(p string, i os.FileInfo, err error) error {
		if err != nil || p == dir {
			return nil
		}
		t := "(directory)"
		if i.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			t = string(b)
		}
		rel, _ := filepath.Rel(dir, p)
		out[rel] = t
		return nil
	})
	return out
}

// ---- the program ----

// c27World has secrets the scanner can recognise anywhere.
func c27World(c *Ctx, r *rand.Rand, encryptedKey bool) (*World, *Scanner) {
	var kp []byte
	if encryptedKey {
		kp = secretWord(r, 20)
	}
	w := newWorld(c, r, kp)
	w.Password = string(secretWord(r, 24))
	w.Cfg["ProxyPassword"] = w.Password
	w.v.Password = secretWord(r, 26)
	w.v.Conf = refMakeConf(r, w.v.Master, w.v.Password, w.v.Cfg, 10)
	w.fs.Load(w.v)
	s := &Scanner{}
	s.add("volume passphrase", w.v.Password)
	s.add("proxy password", []byte(w.Password))
	if kp != nil {
		s.add("key passphrase", kp)
	}
	s.add("master key", w.v.Master)
	return w, s
}

// readsWithEcho tells whether a thread of the process is blocked reading standard input
// while the terminal echoes; known tells whether threads could be inspected at all.
func readsStdin(pid int) (reads, known bool) {
	l, _ := filepath.Glob(fmt.Sprintf("/proc/%d/task/*/syscall", pid))
	for _, f := range l {
		b, err := os.ReadFile(f)
		if err != nil {
			continue
		}
		known = true
		w := strings.Fields(string(b))
		if len(w) > 1 && w[0] == "0" && w[1] == "0x0" {
			reads = true
		}
	}
	return
}

// watchEcho observes a program while it starts: a read of standard input seen twice, well
// apart, with the echo on each time is a password typed in the open.
func watchEcho(c *Ctx, p *Proxy, what string, stop <-chan struct{}) {
	seen := 0
	for {
		select {
		case <-stop:
			return
		case <-p.done:
			return
		case <-time.After(20 * time.Millisecond):
		}
		echo := p.pty.echo()
		reads, known := readsStdin(p.cmd.Process.Pid)
		if known {
			c.Count("terminal_observations", 1)
		}
		if reads {
			c.Count("reads_of_the_terminal_seen", 1)
		}
		if reads && echo && p.pty.echo() {
			seen++
			if seen >= 15 {
				c.Violate("echo", "%s: the program reads a password while the terminal's echo is on", what)
				_ = p.cmd.Process.Kill()
				return
			}
		} else {
			seen = 0
		}
	}
}

// c27Scan looks at everything a finished or running program has put out.
func c27Scan(c *Ctx, s *Scanner, p *Proxy, what string, seen string, want map[string]bool) {
	look := func(where, text string) {
		c.Count("outputs_scanned", 1)
		if x := s.find(text); x != "" {
			c.Violate("secret", "%s: %s contains %s", what, where, x)
		}
	}
	look("standard output", p.out.String())
	look("standard error", p.err.String())
	look("the terminal", p.pty.output())
	look("what clients received", seen)
	for f, t := range filesBelow(p.dir) {
		if f == "tmp" || want[f] {
			continue
		}
		look("file "+f, t)
		if strings.HasPrefix(f, "tmp/") {
			c.Violate("leftover", "%s: the temporary directory contains %s: %s", what, f, clip(t, 500))
		}
	}
	c.Count("temporary_directories_scanned", 1)
}

// tee records what a client receives.
type tee struct {
	io.ReadWriteCloser
	mu *sync.Mutex
	b  *bytes.Buffer
}

func (t tee) Read(p []byte) (int, error) {
	n, err := t.ReadWriteCloser.Read(p)
	t.mu.Lock()
	t.b.Write(p[:n])
	t.mu.Unlock()
	return n, err
}

// c27Client uses the service: successful and failing requests; returns all it received.
func c27Client(c *Ctx, r *rand.Rand, w *World) string {
	var mu sync.Mutex
	var b bytes.Buffer
	note := func(err error) {
		if err != nil {
			mu.Lock()
			b.WriteString(err.Error() + "\n")
			mu.Unlock()
		}
	}
	// logins that fail, with the right words in the wrong place
	for _, x := range []cred{{w.User, w.Password + "x"}, {w.User, "x" + w.Password}, {w.User + "x", w.Password}, {"root", w.Password}, {w.User, ""}, {w.User, string(w.v.Password)}} {
		nc, err := net.DialTimeout("tcp", proxyAddr, 30*time.Second)
		if err != nil {
			note(err)
			continue
		}
		_ = nc.SetDeadline(time.Now().Add(30 * time.Second))
		_, _, _, err = ssh.NewClientConn(nc, proxyAddr, &ssh.ClientConfig{User: x.user, Auth: []ssh.AuthMethod{ssh.Password(x.pass)}, HostKeyCallback: ssh.InsecureIgnoreHostKey(),
			BannerCallback: func(m string) error { note(fmt.Errorf("%s", m)); return nil }})
		note(err)
		if err != nil {
			c.Count("failed_logins", 1)
		}
		_ = nc.Close()
	}
	cl, err := sshClient(w.User, ssh.Password(w.Password))
	if err != nil {
		note(err)
		return b.String()
	}
	defer cl.Close()
	patiently(func() {
		if _, _, err := cl.OpenChannel("direct-tcpip", []byte("x")); err != nil {
			note(err)
		}
	})
	patiently(func() {
		ok, pl, err := cl.SendRequest("password", true, []byte(w.User))
		note(err)
		note(fmt.Errorf("%v %s", ok, pl))
	})
	open := func() *RawClient {
		ch, rq, err := cl.OpenChannel("session", nil)
		if err != nil {
			note(err)
			return nil
		}
		go func() {
			for q := range rq {
				note(fmt.Errorf("%s %s", q.Type, q.Payload))
			}
		}()
		patiently(func() { _, err = ch.SendRequest("exec", true, sstr("cat /etc/passwd")) })
		if err != nil {
			note(err)
		}
		if _, err := ch.SendRequest("subsystem", true, sstr("sftp")); err != nil {
			note(err)
			return nil
		}
		go func() {
			e, _ := io.ReadAll(ch.Stderr())
			note(fmt.Errorf("%s", e))
		}()
		rc, err := newRawClient(tee{ch, &mu, &b})
		note(err)
		return rc
	}
	rc := open()
	if rc == nil {
		return b.String()
	}
	done := make(chan struct{})
	go func() {
		defer close(done)
		dirs, files := w.v.All()
		for round := 0; round < 2; round++ {
			for _, f := range files {
				_, err := rc.readAll(f.Path, 32768)
				note(err)
				c.Count("client_requests", 1)
			}
			for _, d := range dirs {
				_, _, err := rc.list(d.Path)
				note(err)
				_, err = rc.readAll(d.Path, 100)
				note(err)
				c.Count("client_requests", 2)
			}
			for _, p := range []string{"/missing", "/missing/deeper", "/gocryptfs.conf", "/gocryptfs.diriv", files[0].Path + "/x", "", "relative", "/..", strings.Repeat("/n", 300)} {
				_, err := rc.readAll(p, 100)
				note(err)
				_, err = rc.attrReq(fxStat, p)
				note(err)
				_, _, err = rc.list(p)
				note(err)
				_, err = rc.rt(fxRemove, sstr(p))
				note(err)
				_, err = rc.rt(fxMkdir, sstr(p), be32(0))
				note(err)
				_, err = rc.open(p, 0x1a)
				note(err)
				c.Count("client_requests", 6)
			}
			if round == 0 {
				// the remote fails from here on
				n := int64(0)
				w.sshd.OnPacket = func(x *SConn, k int, p SPkt) Action {
					switch atomic.AddInt64(&n, 1) % 5 {
					case 0:
						return Action{Fail: 4}
					case 1:
						return Action{Fail: 3}
					case 2:
						return Action{Kill: 1}
					}
					return Action{}
				}
			}
		}
	}()
	select {
	case <-done:
	case <-time.After(60 * time.Second):
		cl.Close()
		<-done
	}
	w.sshd.OnPacket = nil
	mu.Lock()
	defer mu.Unlock()
	return b.String()
}

type c27Case struct {
	name string
	key  bool // the key file is encrypted
	prep func(w *World)
	ans  func(w *World) [][]byte
	raw  func(w *World) []byte // configuration file written as is
	up   bool                  // expected to serve; nothing is asserted about it here
	null bool                  // standard input is /dev/null
}

func c27Cases(r *rand.Rand) []c27Case {
	conf := func(f func(d *RefConf)) func(w *World) {
		return func(w *World) {
			d := w.v.Conf.clone()
			f(d)
			w.fs.put(w.v.RootPath+"/gocryptfs.conf", d.JSON(), 0400, mtime0)
		}
	}
	rawConf := func(f func(w *World) []byte) func(w *World) {
		return func(w *World) { w.fs.put(w.v.RootPath+"/gocryptfs.conf", f(w), 0400, mtime0) }
	}
	near := func(b []byte) []byte { return append(append([]byte{}, b...), "zz"...) }
	cfgText := func(f func(w *World, s string) string) func(w *World) []byte {
		return func(w *World) []byte {
			b, _ := os.ReadFile(w.writeCfg())
			return []byte(f(w, string(b)))
		}
	}
	return []c27Case{
		{name: "all right", up: true},
		{name: "all right, encrypted key", key: true, up: true},
		{name: "key passphrase right at the third attempt", key: true, up: true, ans: func(w *World) [][]byte {
			return [][]byte{near(w.KeyPass), w.v.Password, w.KeyPass, w.v.Password}
		}},
		{name: "wrong key passphrase", key: true, ans: func(w *World) [][]byte {
			return [][]byte{near(w.KeyPass), w.v.Password, near(w.KeyPass)}
		}},
		{name: "wrong volume passphrase", ans: func(w *World) [][]byte { return [][]byte{near(w.v.Password)} }},
		{name: "proxy password as volume passphrase", ans: func(w *World) [][]byte { return [][]byte{[]byte(w.Password)} }},
		{name: "empty volume passphrase", ans: func(w *World) [][]byte { return [][]byte{{}} }},
		{name: "no terminal", key: true, null: true},
		{name: "no terminal for the volume passphrase", null: true},
		{name: "empty known hosts", prep: func(w *World) { w.setHosts("") }},
		{name: "malformed known hosts", prep: func(w *World) { w.setHosts("this is no line") }},
		{name: "another host key", prep: func(w *World) {
			w.setHosts(knownhosts.Line([]string{w.sshd.Addr}, newSigner(rand.New(rand.NewSource(1))).PublicKey()))
		}},
		{name: "remote unreachable", prep: func(w *World) { w.Remote["Addr"] = "127.0.0.1:1" }},
		{name: "remote address malformed", prep: func(w *World) { w.Remote["Addr"] = "no port" }},
		{name: "remote cuts connections", prep: func(w *World) { atomic.StoreInt32(&w.sshd.down, 1) }},
		{name: "remote root missing", prep: func(w *World) { w.Remote["FileRoot"] = "/nowhere" }},
		{name: "remote refuses to read the configuration", prep: func(w *World) {
			w.sshd.OnPacket = func(x *SConn, k int, p SPkt) Action { return Action{Fail: 3} }
		}},
		{name: "remote dies while the configuration is read", prep: func(w *World) {
			w.sshd.OnPacket = func(x *SConn, k int, p SPkt) Action { return Action{Kill: 1} }
		}},
		{name: "configuration without a proxy user", prep: func(w *World) { delete(w.Cfg, "ProxyUser") }},
		{name: "configuration with an empty remote", prep: func(w *World) { w.Cfg["Remote"] = map[string]interface{}{} }},
		{name: "configuration with a missing key file", prep: func(w *World) { w.Remote["PrivateKeyPath"] = w.dir + "/none" }},
		{name: "configuration with a wrong type", prep: func(w *World) { w.Cfg["KnownHostsPath"] = 17 }},
		{name: "configuration whose password is a list", prep: func(w *World) { w.Cfg["ProxyPassword"] = []string{w.Password} }},
		{name: "configuration whose remote is the password", prep: func(w *World) { w.Cfg["Remote"] = w.Password }},
		{name: "configuration whose password has an unknown escape", raw: cfgText(func(w *World, s string) string {
			return strings.Replace(s, w.Password, w.Password+`\q`, 1)
		})},
		{name: "configuration cut in the password", raw: cfgText(func(w *World, s string) string {
			return s[:strings.Index(s, w.Password)+len(w.Password)]
		})},
		{name: "configuration with an unquoted password", raw: cfgText(func(w *World, s string) string {
			return strings.Replace(s, `"`+w.Password+`"`, w.Password, 1)
		})},
		{name: "configuration with text after its end", raw: cfgText(func(w *World, s string) string { return s + w.Password })},
		{name: "key file is the configuration", prep: func(w *World) { w.Remote["PrivateKeyPath"] = w.dir + "/config.json" }},
		{name: "known hosts file is the configuration", prep: func(w *World) { w.Cfg["KnownHostsPath"] = w.dir + "/config.json" }},
		{name: "volume with an unknown flag", prep: conf(func(d *RefConf) { d.FeatureFlags = append(d.FeatureFlags, "Strange") })},
		{name: "volume with a missing flag", prep: conf(func(d *RefConf) { d.FeatureFlags = without(d.FeatureFlags, "DirIV") })},
		{name: "volume with plaintext names", prep: conf(func(d *RefConf) { d.FeatureFlags = []string{"GCMIV128", "HKDF", "PlaintextNames"} })},
		{name: "volume with another version", prep: conf(func(d *RefConf) { d.Version = 3 })},
		{name: "volume with weak N", prep: conf(func(d *RefConf) { d.ScryptObject.N = 512 })},
		{name: "volume with odd N", prep: conf(func(d *RefConf) { d.ScryptObject.N = 1025 })},
		{name: "volume with weak R", prep: conf(func(d *RefConf) { d.ScryptObject.R = 1 })},
		{name: "volume with P 0", prep: conf(func(d *RefConf) { d.ScryptObject.P = 0 })},
		{name: "volume with short salt", prep: conf(func(d *RefConf) { d.ScryptObject.Salt = d.ScryptObject.Salt[:8] })},
		{name: "volume with short key length", prep: conf(func(d *RefConf) { d.ScryptObject.KeyLen = 16 })},
		{name: "volume with a damaged key", prep: conf(func(d *RefConf) { d.EncryptedKey[20] ^= 1 })},
		{name: "volume with a short key", prep: conf(func(d *RefConf) { d.EncryptedKey = d.EncryptedKey[:10] })},
		{name: "volume with an empty key", prep: conf(func(d *RefConf) { d.EncryptedKey = nil })},
		{name: "volume with an all-zero key", prep: conf(func(d *RefConf) { d.EncryptedKey = make([]byte, 64) })},
		{name: "volume with a wrapped key of the wrong length", prep: func(w *World) {
			d := refMakeConf(r, w.v.Master[:31], w.v.Password, w.v.Cfg, 10)
			w.fs.put(w.v.RootPath+"/gocryptfs.conf", d.JSON(), 0400, mtime0)
		}},
		{name: "volume whose configuration is cut", prep: rawConf(func(w *World) []byte { return w.v.Conf.JSON()[:50] })},
		{name: "volume whose configuration is empty", prep: rawConf(func(w *World) []byte { return nil })},
		{name: "volume whose configuration has another type", prep: rawConf(func(w *World) []byte { return []byte(`{"Version":"2","EncryptedKey":17}`) })},
	}
}

func runC27(c *Ctx) {
	c.Rule("one case = one start of the program (or of the library in a process of its own) in one situation, everything it puts out being scanned; distinct = distinct (situation, debug log, terminal) combinations")
	c.Assume("a secret appears if eight of its bytes in a row are found as text, hexadecimal, decimal, base64, base32 or quoted; short passwords are therefore not used")
	for _, k := range []string{"failed_logins", "client_requests", "temporary_directories_scanned", "library_processes", "created_keys", "terminal_prompts", "ended_by_itself", "served"} {
		c.Need(k, 3)
	}
	for round := 0; round < c.N(2, 12) && !c.Stopped(); round++ {
		for i, k := range c27Cases(c.Rand("cases", round)) {
			if c.Stopped() {
				return
			}
			c27Run(c, c.Rand("run", round, i), k, round, i)
		}
	}
	for i := 0; i < c.N(30, 600) && !c.Stopped(); i++ {
		c27Library(c, c.Rand("lib", i), i)
	}
	if c.counters["terminal_observations"] > 0 {
		c.Need("reads_of_the_terminal_seen", 1)
	}
}

func c27Run(c *Ctx, r *rand.Rand, k c27Case, round, i int) {
	w, s := c27World(c, r, k.key)
	defer w.Close()
	defer func() { w.sshd.OnPacket = nil }()
	if k.prep != nil {
		k.prep(w)
	}
	cfg := w.writeCfg()
	if k.raw != nil {
		must(os.WriteFile(cfg, k.raw(w), 0600))
	}
	before := filesBelow(w.dir)
	args := []string{"-c", cfg}
	debug := (i+round)%2 == 0
	if debug {
		args = append(args, "-e")
	}
	tty := r.Intn(3) == 0
	answers := w.answers()
	if k.ans != nil {
		answers = k.ans(w)
	}
	what := fmt.Sprintf("%s (debug %v, output to the terminal %v)", k.name, debug, tty)
	c.Current(what)
	c.Eval(what)
	var stdin *os.File
	if k.null {
		f, err := os.Open("/dev/null")
		must(err)
		defer f.Close()
		stdin = f
	}
	p := startProxyOn(c, tty, stdin, args, answers)
	if p == nil {
		return
	}
	stop := make(chan struct{})
	if !k.null {
		go watchEcho(c, p, what, stop)
	}
	st := p.await(60 * time.Second)
	close(stop)
	c.Count("terminal_prompts", int64(atomic.LoadInt32(&p.prompts)))
	seen := ""
	switch st {
	case "listening":
		c.Count("served", 1)
		c27Scan(c, s, p, what+", serving", "", nil)
		seen = c27Client(c, r, w)
	case "exited":
		c.Count("ended_by_itself", 1)
		if k.up && len(c.viol) == 0 {
			c.Inconclusive("%s: the program does not start: %s%s", what, clip(p.out.String(), 500), clip(p.err.String(), 1000))
		}
	case "stuck":
		c.Inconclusive("%s: neither serving nor ended", what)
	}
	// a full dump of the goroutines is output, too
	if !p.exited() && r.Intn(3) == 0 {
		_ = p.Dump()
	}
	p.Kill()
	time.Sleep(2 * time.Millisecond)
	c27Scan(c, s, p, what, seen, nil)
	if tty {
		c.Count("bytes_on_the_terminal", int64(len(p.pty.output())))
	}
	// files next to the configuration
	for f, t := range filesBelow(w.dir) {
		if _, ok := before[f]; !ok {
			if x := s.find(t); x != "" {
				c.Violate("secret", "%s: new file %s contains %s", what, f, x)
			}
		}
	}
	c.Count("bytes_scanned", atomic.LoadInt64(&s.scanned))
	if i < 3 && round == 0 {
		c.Sample(map[string]interface{}{"case": what, "result": st, "stdout": clip(p.out.String(), 300), "stderr": clip(p.err.String(), 600), "client_received_bytes": len(seen)})
	}
	_ = os.RemoveAll(p.dir)
}

// ---- the library in a process of its own ----

type secretsJob struct {
	Mode     string
	Conf     []byte
	Password []byte
	Files    map[string][]byte
	Paths    []string
	Devrand  bool
	AESSIV   bool
	Plain    bool
}

// secretsHelper DIR runs one job with all logging on; errors go to DIR/errors.
func secretsHelper(a []string) {
	dir := a[0]
	b, err := os.ReadFile(filepath.Join(dir, "job.json"))
	must(err)
	var j secretsJob
	must(json.Unmarshal(b, &j))
	tlog.Debug.Enabled = true
	tlog.Info.Enabled = true
	errs, err := os.Create(filepath.Join(dir, "errors"))
	must(err)
	note := func(err error) {
		if err != nil {
			fmt.Fprintf(errs, "%s\n%v\n%+v\n", err, err, err)
		}
	}
	switch j.Mode {
	case "init", "init-full", "init-panic":
		fs := newMemFS()
		fs.mkdir("/", 0755, mtime0)
		fs.mkdir("/enc", 0755, mtime0)
		if j.Conf != nil {
			fs.put("/enc/gocryptfs.conf", j.Conf, 0400, mtime0)
		}
		for f, d := range j.Files {
			for _, p := range prefixes(f) {
				if fs.ents[p] == nil {
					fs.mkdir(p, 0755, mtime0)
				}
			}
			fs.put(f, d, 0644, mtime0)
		}
		if j.Mode == "init-full" {
			// no file may grow: the temporary copy cannot be written
			signal.Ignore(syscall.SIGXFSZ)
			must(errs.Close())
			errs, err = os.OpenFile("/dev/full", os.O_WRONLY, 0)
			must(err)
			must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: 20, Max: 1 << 62}))
		}
		ft, err := filetree.Init("/enc", j.Password, 2, fs)
		if j.Mode == "init-full" {
			fmt.Println(err)
			return
		}
		note(err)
		if err == nil && ft != nil {
			must(os.WriteFile(filepath.Join(dir, "opened"), nil, 0600))
			l, _ := os.ReadDir(os.TempDir())
			for _, e := range l {
				must(os.WriteFile(filepath.Join(dir, "leftover"), []byte(e.Name()), 0600))
			}
			for _, p := range append(j.Paths, "/", "/missing", "/gocryptfs.conf") {
				_, err := ft.ReadFile(p)
				note(err)
				_, err = ft.ReadDir(p)
				note(err)
				_, err = ft.Stat(p)
				note(err)
			}
		}
	case "create":
		f := filepath.Join(dir, "created.conf")
		err := configfile.Create(f, append([]byte{}, j.Password...), j.Plain, 10, "verif", j.AESSIV, j.Devrand, nil)
		note(err)
		_, _, err = configfile.LoadAndDecrypt(f, append(append([]byte{}, j.Password...), "zz"...))
		note(err)
		key, cf, err := configfile.LoadAndDecrypt(f, append([]byte{}, j.Password...))
		note(err)
		if err == nil {
			must(os.WriteFile(filepath.Join(dir, "key"), key, 0600))
			k2 := append([]byte{}, key...)
			cf.EncryptKey(k2, append([]byte("new"), j.Password...), 10)
			note(cf.WriteFile())
			must(os.WriteFile(f+".tmp", []byte("in the way"), 0600))
			note(cf.WriteFile())
		}
		note(configfile.Create(filepath.Join(dir, "no/such/place"), append([]byte{}, j.Password...), j.Plain, 10, "verif", j.AESSIV, j.Devrand, nil))
	}
}

func c27Library(c *Ctx, r *rand.Rand, i int) {
	dir, err := os.MkdirTemp(c.Dir, "lib")
	must(err)
	defer os.RemoveAll(dir)
	tmp := filepath.Join(dir, "tmp")
	must(os.Mkdir(tmp, 0700))
	cfg := cfgAll[r.Intn(16)]
	v := newVolume(r, cfg, "/enc")
	v.Password = secretWord(r, 24)
	v.Conf = refMakeConf(r, v.Master, v.Password, cfg, 10)
	d := v.Mkdir(v.Root, "dir")
	f1 := v.File(d, "good", randBytes(r, 9000), nil)
	f2 := v.File(v.Root, "damaged", randBytes(r, 9000), nil)
	f3 := v.File(v.Root, "short", randBytes(r, 100), nil)
	j := secretsJob{Password: v.Password, Conf: v.Conf.JSON(), Files: map[string][]byte{}, Devrand: r.Intn(4) == 0, AESSIV: r.Intn(2) == 0, Plain: r.Intn(4) == 0}
	s := &Scanner{}
	s.add("passphrase", v.Password)
	s.add("master key", v.Master)
	opens := false
	what := ""
	switch kind := i % 12; kind {
	case 0, 1, 2:
		j.Mode, opens, what = "init", true, "right password"
		ct := append([]byte{}, f2.CT...)
		ct[30] ^= 1
		j.Files = map[string][]byte{
			v.Root.CPath + "/gocryptfs.diriv": v.Root.IV, d.CPath + "/gocryptfs.diriv": d.IV,
			f1.CPath: f1.CT, f2.CPath: ct, f3.CPath: f3.CT[:20], "/enc/garbage": randBytes(r, 10),
		}
		if kind == 2 {
			j.Files[d.CPath+"/gocryptfs.diriv"] = make([]byte, 16)
			what += ", damaged directory IV"
		}
		j.Paths = []string{f1.Path, f2.Path, f3.Path, d.Path}
	case 3:
		j.Mode, what = "init", "wrong password"
		j.Password = append(append([]byte{}, v.Password...), "zz"...)
	case 4:
		j.Mode, what = "init-full", "temporary file cannot be written"
	case 5:
		j.Mode, what = "init", "no configuration"
		j.Conf = nil
	case 6, 7:
		x := v.Conf.clone()
		j.Mode, what = "init", "parameters that end the process"
		switch r.Intn(4) {
		case 0:
			x.ScryptObject.N = 512
		case 1:
			x.ScryptObject.N = 1025
		case 2:
			x.ScryptObject.R = 1
		case 3:
			x.ScryptObject.KeyLen = 16
		}
		j.Conf = x.JSON()
	case 8:
		x := v.Conf.clone()
		j.Mode, what = "init", "refused configuration"
		switch r.Intn(5) {
		case 0:
			x.Version = 1
		case 1:
			x.FeatureFlags = append(x.FeatureFlags, "New")
		case 2:
			x.EncryptedKey[r.Intn(len(x.EncryptedKey))] ^= 1
		case 3:
			x.FeatureFlags = nil
		case 4:
			x = refMakeConf(r, v.Master[:20], v.Password, cfg, 10)
		}
		j.Conf = x.JSON()
		if r.Intn(4) == 0 {
			j.Conf = j.Conf[:len(j.Conf)/2]
		}
	default:
		j.Mode, what = "create", "creating a configuration"
	}
	b, err := json.Marshal(j)
	must(err)
	must(os.WriteFile(filepath.Join(dir, "job.json"), b, 0600))
	cmd := exec.Command(os.Args[0], "secrets", dir)
	cmd.Dir = tmp
	cmd.Env = append(os.Environ(), "TMPDIR="+tmp, "HOME="+tmp)
	var out, errb lockedBuf
	cmd.Stdout, cmd.Stderr = &out, &errb
	_ = cmd.Run()
	c.Eval(fmt.Sprint("lib/", what))
	c.Current(what)
	c.Count("library_processes", 1)
	errs, _ := os.ReadFile(filepath.Join(dir, "errors"))
	if strings.Contains(errb.String(), "harness:") {
		c.Inconclusive("helper: %s", clip(errb.String(), 1000))
		return
	}
	if j.Mode == "create" {
		if key, err := os.ReadFile(filepath.Join(dir, "key")); err == nil && len(key) == 32 {
			s.add("created master key", key)
			c.Count("created_keys", 1)
		} else {
			c.Inconclusive("no created key: %s", clip(string(errs), 1000))
		}
	}
	if opens {
		if _, err := os.Stat(filepath.Join(dir, "opened")); err != nil {
			c.Inconclusive("library, %s: the volume does not open: %s %s", what, clip(string(errs), 500), clip(errb.String(), 1000))
		}
		c.Count("library_volumes_opened", 1)
	}
	for where, t := range map[string]string{"standard output": out.String(), "standard error": errb.String(), "an error": string(errs)} {
		c.Count("outputs_scanned", 1)
		if x := s.find(t); x != "" {
			c.Violate("secret", "library, %s: %s contains %s", what, where, x)
		}
	}
	if b, err := os.ReadFile(filepath.Join(dir, "leftover")); err == nil {
		c.Violate("leftover", "library, %s: the temporary directory contains %s after the volume was opened", what, b)
	}
	for f, t := range filesBelow(tmp) {
		c.Violate("leftover", "library, %s: the temporary directory contains %s: %s", what, f, clip(t, 300))
	}
	if j.Mode == "create" {
		for f, t := range filesBelow(dir) {
			if f == "job.json" || f == "key" || f == "errors" {
				continue
			}
			if x := s.find(t); x != "" {
				c.Violate("secret", "library, %s: file %s contains %s", what, f, x)
			}
		}
	}
	c.Count("temporary_directories_scanned", 1)
	c.Count("bytes_scanned", atomic.LoadInt64(&s.scanned))
}
