package main

import (
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strings"
	"sync"
	"time"

	"golang.org/x/crypto/ssh"
)

func init() {
	register("C18", &Check{Run: runC18})
	register("C20", &Check{Run: runC20})
}

// ---- C18 ----

type cred struct{ user, pass string }

func c18Credentials(r *rand.Rand, i int) cred {
	hx := fmt.Sprintf("%x", randBytes(r, 4))
	switch i % 8 {
	case 0:
		return cred{"proxy-user-" + hx, "Proxy-Password-" + hx}
	case 1:
		return cred{"a:b", "c:d:" + hx}
	case 2:
		return cred{"u", strings.Repeat("0123456789abcdef", 20) + hx}
	case 3:
		return cred{strings.Repeat("User", 40) + hx, "p" + hx}
	case 4:
		return cred{"usér " + hx, " pässwörd 漢字 " + hx + " "}
	case 5:
		return cred{"same" + hx, "same" + hx}
	case 6:
		return cred{"x", "y"}
	}
	return cred{"User\t$HOME " + hx, "pa\tss\\\"'$%s ${PATH}$1~%41&amp;" + hx}
}

// wrongCreds: pairs that differ from the right one.
func wrongCreds(r *rand.Rand, k cred) []cred {
	flip := func(s string) string {
		b := []byte(s)
		b[r.Intn(len(b))] ^= 1 << uint(r.Intn(7))
		return string(b)
	}
	last := func(s string) string {
		b := []byte(s)
		b[len(b)-1] ^= 1
		return string(b)
	}
	swapcase := func(s string) string {
		b := []byte(s)
		for i := range b {
			if b[i] >= 'a' && b[i] <= 'z' || b[i] >= 'A' && b[i] <= 'Z' {
				b[i] ^= 32
			}
		}
		return string(b)
	}
	l := []cred{
		{k.user, ""}, {"", k.pass}, {"", ""}, {k.pass, k.user}, {k.user, k.user}, {k.pass, k.pass},
		{k.user, k.pass + "x"}, {k.user, k.pass + "\x00"}, {k.user, k.pass + " "}, {k.user, k.pass + "\n"}, {k.user, " " + k.pass},
		{k.user, "\x00" + k.pass}, {k.user, k.pass[:len(k.pass)-1]}, {k.user, k.pass[1:]}, {k.user, k.pass + k.pass},
		{k.user, flip(k.pass)}, {k.user, last(k.pass)}, {k.user, swapcase(k.pass)}, {k.user, strings.ToUpper(k.pass)}, {k.user, strings.ToLower(k.pass)},
		{k.user, strings.TrimSpace(k.pass)},
		{k.user + "x", k.pass}, {k.user + "\x00", k.pass}, {k.user + " ", k.pass}, {k.user[:len(k.user)-1], k.pass}, {k.user[1:], k.pass},
		{flip(k.user), k.pass}, {last(k.user), k.pass}, {swapcase(k.user), k.pass}, {strings.ToUpper(k.user), k.pass}, {strings.TrimSpace(k.user), k.pass},
		{"root", k.pass}, {"root", ""}, {"admin", "admin"}, {"proxy-user-name", "proxy-password"}, {"testuser", "tiger"}, {k.user, "password"}, {k.user, "*"}, {"*", "*"},
		{last(k.user), last(k.pass)},
		// the same characters split in another place
		{k.user + k.pass[:1], k.pass[1:]}, {k.user[:len(k.user)-1], k.user[len(k.user)-1:] + k.pass},
		{k.user + ":" + k.pass, ""}, {k.user + k.pass, ""}, {"", k.user + k.pass},
	}
	if len(k.pass) > 80 {
		for _, n := range []int{8, 16, 32, 56, 64, 72, 128, 255, 256} {
			if n < len(k.pass) {
				l = append(l, cred{k.user, k.pass[:n]}, cred{k.user, k.pass[:n] + strings.Repeat("z", len(k.pass)-n)})
			}
		}
	}
	if i := strings.Index(k.user+":"+k.pass, ":"); i >= 0 {
		whole := k.user + ":" + k.pass
		for j := range whole {
			if whole[j] == ':' {
				l = append(l, cred{whole[:j], whole[j+1:]})
			}
		}
	}
	var out []cred
	for _, x := range l {
		if x != k {
			out = append(out, x)
		}
	}
	return out
}

func runC18(c *Ctx) {
	c.Rule("one case = one authentication attempt against the running program; distinct = distinct (method, relation to the configured pair, credentials)")
	c.Assume("authentication and packet encryption of golang.org/x/crypto/ssh; the harness uses the same library as client")
	for _, k := range []string{"admitted", "rejected_password", "rejected_method", "concurrent_attempts", "retry_sequences", "siege_passwords"} {
		c.Need(k, 2)
	}
	for i := 0; i < c.N(24, 200) && !c.Stopped(); i++ {
		r := c.Rand("cred", i)
		k := c18Credentials(r, i)
		w := newWorld(c, r, nil)
		w.User, w.Password = k.user, k.pass
		w.Cfg["ProxyUser"], w.Cfg["ProxyPassword"] = k.user, k.pass
		p := w.up()
		if p == nil {
			w.Close()
			continue
		}
		c18World(c, r, w, p, k, i)
		p.Kill()
		w.Close()
	}
}

func (w *World) remotePackets() (n int) {
	for _, x := range w.sshd.Conns() {
		n += len(x.Packets())
	}
	return
}

// served tells whether a client that got in is given SFTP service.
func served(cl *ssh.Client) bool {
	ch, rq, err := cl.OpenChannel("session", nil)
	if err != nil {
		return false
	}
	go ssh.DiscardRequests(rq)
	_, _ = ch.SendRequest("subsystem", true, sstr("sftp"))
	done := make(chan bool, 1)
	go func() {
		rc, err := newRawClient(ch)
		if err != nil {
			done <- false
			return
		}
		_, err = rc.attrReq(fxStat, "/")
		done <- err == nil
	}()
	select {
	case x := <-done:
		return x
	case <-time.After(20 * time.Second):
		return false
	}
}

// c18Siege: hundreds of wrong passwords, one after the other and in parallel.
func c18Siege(c *Ctx, r *rand.Rand, k cred, dead func() bool) {
	wrong := wrongCreds(r, k)
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		sr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for j := 0; j < 12 && !dead(); j++ {
				var tried []string
				cl, err := sshClient(k.user, ssh.RetryableAuthMethod(ssh.PasswordCallback(func() (string, error) {
					x := wrong[sr.Intn(len(wrong))].pass
					if x == k.pass {
						x += "?"
					}
					tried = append(tried, x)
					c.Count("siege_passwords", 1)
					return x, nil
				}), 6))
				if err == nil {
					_ = cl.Close()
					c.Violate("wrong-admitted", "configured %q/%q: one of %q is admitted after many refusals", k.user, k.pass, tried)
				}
			}
		}()
	}
	wg.Wait()
}

func c18World(c *Ctx, r *rand.Rand, w *World, p *Proxy, k cred, i int) {
	try := func(user string, m ...ssh.AuthMethod) (bool, error) {
		cl, err := sshClient(user, m...)
		if err != nil {
			return false, err
		}
		defer cl.Close()
		return true, nil
	}
	dead := func() bool {
		if p.exited() {
			c.Violate("crash", "the proxy ended during authentication: exit %d %s", p.exit, clip(p.err.String(), 3000))
			return true
		}
		return false
	}
	good := func(when string) {
		c.Eval("good" + when + fmt.Sprint(i))
		cl, err := sshClient(k.user, ssh.Password(k.pass))
		if err != nil {
			if !dead() {
				c.Violate("right-refused", "configured %q/%q: the right pair is refused %s: %v", k.user, k.pass, when, err)
			}
			return
		}
		defer cl.Close()
		if !served(cl) {
			c.Violate("right-refused", "configured %q/%q: admitted %s but not served", k.user, k.pass, when)
		}
		c.Count("admitted", 1)
	}
	good("first")
	if i%12 == 4 {
		c18Siege(c, r, k, dead)
		good("after many refusals")
	}
	wrong := wrongCreds(r, k)
	r.Shuffle(len(wrong), func(a, b int) { wrong[a], wrong[b] = wrong[b], wrong[a] })
	before := w.remotePackets()
	for n, x := range wrong {
		if dead() || c.Stopped() {
			return
		}
		c.Eval(fmt.Sprint("pw", x))
		c.Count("rejected_password", 1)
		if ok, _ := try(x.user, ssh.Password(x.pass)); ok {
			c.Violate("wrong-admitted", "configured %q/%q: user %q with password %q is admitted", k.user, k.pass, x.user, x.pass)
		}
		if n < 2 {
			c.Sample(map[string]string{"configured": fmt.Sprintf("%q/%q", k.user, k.pass), "refused": fmt.Sprintf("%q/%q", x.user, x.pass)})
		}
		if n%12 == 5 {
			good("between refusals")
			before = w.remotePackets()
		}
	}
	// other methods
	ki := func(answer string) ssh.AuthMethod {
		return ssh.KeyboardInteractive(func(u, ins string, q []string, e []bool) ([]string, error) {
			a := make([]string, len(q))
			for j := range a {
				a[j] = answer
			}
			return a, nil
		})
	}
	methods := []struct {
		name string
		user string
		m    []ssh.AuthMethod
	}{
		{"none", k.user, nil},
		{"none as nobody", "", nil},
		{"keyboard-interactive with the password", k.user, []ssh.AuthMethod{ki(k.pass)}},
		{"keyboard-interactive without", k.user, []ssh.AuthMethod{ki("")}},
		{"random public key", k.user, []ssh.AuthMethod{ssh.PublicKeys(newSigner(r))}},
		{"the proxy's own key", k.user, []ssh.AuthMethod{ssh.PublicKeys(w.key)}},
		{"the remote's host key", k.user, []ssh.AuthMethod{ssh.PublicKeys(w.sshd.signer)}},
		{"key then wrong password", k.user, []ssh.AuthMethod{ssh.PublicKeys(w.key), ssh.Password("no")}},
		{"wrong password then key", k.user, []ssh.AuthMethod{ssh.Password("no"), ssh.PublicKeys(w.key)}},
	}
	for _, m := range methods {
		if dead() {
			return
		}
		c.Eval(fmt.Sprint("method", m.name, i))
		c.Count("rejected_method", 1)
		if ok, _ := try(m.user, m.m...); ok {
			c.Violate("method-admitted", "configured %q/%q: %s as %q is admitted", k.user, k.pass, m.name, m.user)
		}
	}
	// many attempts in one connection
	seq := func(pws []string, user string) (bool, int) {
		n := 0
		ok, _ := try(user, ssh.RetryableAuthMethod(ssh.PasswordCallback(func() (string, error) {
			if n >= len(pws) {
				return "", fmt.Errorf("no more")
			}
			n++
			return pws[n-1], nil
		}), len(pws)))
		return ok, n
	}
	for j := 0; j < 8 && !dead(); j++ {
		var l []string
		for len(l) < 1+r.Intn(5) {
			if x := wrongCreds(r, k)[r.Intn(20)].pass; x != k.pass {
				l = append(l, x)
			}
		}
		c.Eval(fmt.Sprint("seq", l))
		c.Count("retry_sequences", 1)
		if ok, n := seq(l, k.user); ok {
			c.Violate("wrong-admitted", "configured %q/%q: passwords %q in one connection are admitted at attempt %d", k.user, k.pass, l, n)
		}
		if len(l) > 4 {
			l = l[:4]
		}
		if ok, n := seq(append(l, k.pass), k.user); !ok || n != len(l)+1 {
			c.Violate("right-refused", "configured %q/%q: the right password at attempt %d of one connection is refused (%d tried)", k.user, k.pass, len(l)+1, n)
		}
		if ok, _ := seq([]string{k.pass, k.pass, "no"}, k.user+"x"); ok {
			c.Violate("wrong-admitted", "configured %q/%q: repeating the right password for another user is admitted", k.user, k.pass)
		}
	}
	if n := w.remotePackets(); n != before && before > 0 {
		// the good logins above were all made before the counter was read
		c.Count("remote_packets_after_refusals", int64(n-before))
	}
	// right and wrong at the same time
	var wg sync.WaitGroup
	for g := 0; g < c.N(48, 200) && !dead(); g++ {
		x := k
		if g%3 != 0 {
			x = wrong[r.Intn(len(wrong))]
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			c.Eval(fmt.Sprint("conc", x))
			c.Count("concurrent_attempts", 1)
			ok, err := try(x.user, ssh.Password(x.pass))
			if ok && x != k {
				c.Violate("wrong-admitted", "configured %q/%q: %q/%q is admitted while others log in", k.user, k.pass, x.user, x.pass)
			}
			if !ok && x == k && strings.Contains(err.Error(), "unable to authenticate") {
				c.Violate("right-refused", "configured %q/%q: the right pair is refused while others log in: %v", k.user, k.pass, err)
			}
		}()
	}
	wg.Wait()
	if !dead() {
		good("last")
	}
}

// ---- C20 ----

var c20Fields = []string{"ProxyUser", "ProxyPassword", "KnownHostsPath", "Remote.Addr", "Remote.FileRoot", "Remote.User", "Remote.PrivateKeyPath"}

func (w *World) set(field string, v interface{}, del bool) {
	m := w.Cfg
	if strings.HasPrefix(field, "Remote.") {
		m, field = w.Remote, field[7:]
	}
	if del {
		delete(m, field)
	} else {
		m[field] = v
	}
}

func runC20(c *Ctx) {
	c.Rule("one case = one start of the program with one configuration; distinct = distinct (field, defect) combinations")
	c.Assume("a listening socket on port 9022 means the program serves; port 9022 is free otherwise")
	for _, k := range []string{"complete", "missing", "empty", "dangling", "unusable", "malformed", "combined"} {
		c.Need(k, 2)
	}
	w := newWorld(c, c.Rand("world"), nil)
	defer w.Close()
	reset := func() {
		w.Remote = map[string]interface{}{"Addr": w.sshd.Addr, "FileRoot": w.v.RootPath, "User": "remote" + w.User, "PrivateKeyPath": w.keyPath}
		w.Cfg = map[string]interface{}{"ProxyUser": w.User, "ProxyPassword": w.Password, "KnownHostsPath": w.hosts, "Remote": w.Remote}
	}
	run := func(kind, what string, path string, want string) {
		if c.Stopped() {
			return
		}
		c.Eval(kind + what)
		c.Count(kind, 1)
		args := []string{"-c", path}
		if path == "" {
			args = nil
		}
		p := startProxy(c, args, w.answers())
		if p == nil {
			return
		}
		defer p.Kill()
		got := p.await(60 * time.Second)
		if got == "stuck" {
			c.Inconclusive("%s: the program neither serves nor ends", what)
			return
		}
		if got != want {
			c.Violate("config-"+kind, "%s: the program is %s (exit %d), want %s\n%s", what, got, p.exit, want, clip(p.err.String(), 1500))
		} else if want == "exited" && p.exit == 0 {
			c.Violate("config-"+kind, "%s: the program ends without an error status\n%s", what, clip(p.err.String(), 1500))
		} else if want == "listening" {
			if pr, _ := w.service(c.Rand("svc", what), 30*time.Second); pr != "" {
				c.Violate("config-"+kind, "%s: started, but does not serve: %s", what, pr)
			}
		}
	}
	complete := func(what string) { run("complete", what, w.writeCfg(), "listening") }
	reset()
	complete("complete configuration")
	w.Cfg["Extra"] = "ignored"
	complete("complete configuration with an unknown field")
	reset()
	odd := filepath.Join(w.dir, "an odd $HOME ${PATH} %41 ~ ä directory ")
	must(os.Mkdir(odd, 0700))
	for _, f := range []struct{ field, from string }{{"Remote.PrivateKeyPath", w.keyPath}, {"KnownHostsPath", w.hosts}} {
		b, err := os.ReadFile(f.from)
		must(err)
		to := filepath.Join(odd, "$USER "+f.field)
		must(os.WriteFile(to, b, 0600))
		w.set(f.field, to, false)
	}
	complete("complete configuration with odd paths")
	reset()
	for _, f := range c20Fields {
		w.set(f, nil, true)
		run("missing", f+" missing", w.writeCfg(), "exited")
		reset()
		w.set(f, "", false)
		run("empty", f+" empty", w.writeCfg(), "exited")
		reset()
		w.set(f, nil, false)
		run("missing", f+" null", w.writeCfg(), "exited")
		reset()
		w.set(f, 42, false)
		run("malformed", f+" a number", w.writeCfg(), "exited")
		reset()
	}
	for _, f := range []string{"KnownHostsPath", "Remote.PrivateKeyPath"} {
		w.set(f, filepath.Join(w.dir, "does-not-exist"), false)
		run("dangling", f+" does not exist", w.writeCfg(), "exited")
		reset()
		w.set(f, w.dir, false)
		run("dangling", f+" is a directory", w.writeCfg(), "exited")
		reset()
		w.set(f, filepath.Join(w.keyPath, "x"), false)
		run("dangling", f+" is below a file", w.writeCfg(), "exited")
		reset()
	}
	// files that exist but are not what they should be
	unusable := filepath.Join(w.dir, "unusable")
	rawKey, err := os.ReadFile(w.keyPath)
	must(err)
	for n, b := range map[string][]byte{"empty": {}, "garbage": []byte("garbage\n"), "truncated": rawKey[:len(rawKey)/2], "a public key": ssh.MarshalAuthorizedKey(w.key.PublicKey()), "binary": make([]byte, 500)} {
		must(os.WriteFile(unusable, b, 0600))
		w.set("Remote.PrivateKeyPath", unusable, false)
		run("unusable", "Remote.PrivateKeyPath: "+n, w.writeCfg(), "exited")
		reset()
	}
	for n, b := range map[string][]byte{"empty": {}, "garbage": []byte("garbage\n"), "a private key": rawKey, "binary": make([]byte, 500)} {
		must(os.WriteFile(unusable, b, 0600))
		w.set("KnownHostsPath", unusable, false)
		run("unusable", "KnownHostsPath: "+n, w.writeCfg(), "exited")
		reset()
	}
	delete(w.Cfg, "Remote")
	run("missing", "no Remote", w.writeCfg(), "exited")
	reset()
	w.Cfg["Remote"] = nil
	run("missing", "Remote null", w.writeCfg(), "exited")
	reset()
	w.Cfg["Remote"] = []string{}
	run("malformed", "Remote a list", w.writeCfg(), "exited")
	reset()
	good, err := os.ReadFile(w.writeCfg())
	must(err)
	bad := filepath.Join(w.dir, "bad.json")
	for n, js := range map[string][]byte{"empty file": {}, "truncated": good[:len(good)/2], "cut before the end": good[:len(good)-2], "empty object": []byte("{}"), "null": []byte("null"),
		"list": []byte("[]"), "garbage": []byte("garbage"), "trailing garbage": append(append([]byte{}, good...), "x"...), "binary": make([]byte, 100), "two objects": append(append([]byte{}, good...), good...)} {
		must(os.WriteFile(bad, js, 0600))
		run("malformed", "configuration file: "+n, bad, "exited")
	}
	run("malformed", "configuration file does not exist", filepath.Join(w.dir, "nothing.json"), "exited")
	run("malformed", "configuration file is a directory", w.dir, "exited")
	run("malformed", "no configuration file given", "", "exited")
	// combinations
	for i := 0; i < c.N(400, 4000) && !c.Stopped(); i++ {
		r := c.Rand("comb", i)
		var what []string
		n := 1 + r.Intn(7)
		for _, k := range r.Perm(len(c20Fields))[:n] {
			f := c20Fields[k]
			switch r.Intn(3) {
			case 0:
				w.set(f, nil, true)
				what = append(what, f+" missing")
			case 1:
				w.set(f, "", false)
				what = append(what, f+" empty")
			case 2:
				w.set(f, nil, false)
				what = append(what, f+" null")
			}
		}
		run("combined", strings.Join(what, ", "), w.writeCfg(), "exited")
		if i < 3 {
			c.Sample(what)
		}
		reset()
	}
	complete("complete configuration at the end")
}
