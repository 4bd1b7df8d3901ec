package main

import (
	"fmt"
	"io"
	"log"
	"math/rand"
	"path"
	"strings"
	"sync/atomic"

	"github.com/flawedmatrix/gocryptsftp/backend"
	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/handlers"
	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
)

func init() {
	register("C06", &Check{Run: runC06})
	register("C08", &Check{Run: runC08})
}

var quietLog = log.New(io.Discard, "", 0)

func snapshot(fs *MemFS) string {
	fs.mu.Lock()
	defer fs.mu.Unlock()
	var sb strings.Builder
	for _, p := range sortedKeys(fs.ents) {
		e := fs.ents[p]
		fmt.Fprintf(&sb, "%q %d %v %v %x\n", p, len(e.kids), e.info.mode, e.info.mtime.Unix(), e.data)
	}
	return sb.String()
}

func sortedKeys(m map[string]*memEnt) []string {
	l := make([]string, 0, len(m))
	for k := range m {
		l = append(l, k)
	}
	sortStrings(l)
	return l
}

// readOnlyPacket: the packets a reader sends.
func readOnlyPacket(p SPkt) bool {
	switch p.Type {
	case fxInit, fxClose, fxRead, fxLstat, fxFstat, fxOpendir, fxReaddir, fxRealpath, fxStat, fxReadlink:
		return true
	case fxOpen:
		return p.Flags == 1
	}
	return false
}

func runC06(c *Ctx) {
	c.Rule("random sequences of every modifying SFTP request (all write/append/create/truncate/exclusive open flag combinations, setstat, fsetstat, write, mkdir, rmdir, remove, rename, symlink, extended renames) " +
		"on existing, missing and odd paths, mixed with reads, through the decrypting handler over a real SSH remote and over the memory remote, and through the plain proxy handler; " +
		"a case is one modifying request; the remote's packet log is checked for anything but reads")
	c.Assume("requests the SFTP library itself answers with a non-status packet (a write on a handle opened for reading) count as not acknowledged")
	rounds := c.N(40, 400)
	for i := 0; i < rounds && !c.Stopped(); i++ {
		r := c.Rand(i)
		v := newVolume(r, cfgAll[i%len(cfgAll)], rootPaths[r.Intn(len(rootPaths))])
		randTree(r, v, 6, 12, 9000)
		fs := newMemFS()
		fs.Load(v)
		before := snapshot(fs)
		srv := newSshd(fs, newSigner(r))
		var h sftp.Handlers
		var err error
		mode := i % 3
		switch mode {
		case 0:
			h, err = handlers.DecryptHandler(v.RootPath, append([]byte{}, v.Password...), 8, backend.NewProvider(srv.Addr, srv.clientConfig(newSigner(r)), quietLog))
		case 1:
			h, err = handlers.DecryptHandler(v.RootPath, append([]byte{}, v.Password...), 8, fs)
		case 2:
			var sc *ssh.Client
			sc, err = ssh.Dial("tcp", srv.Addr, srv.clientConfig(newSigner(r)))
			if err == nil {
				var cl *sftp.Client
				cl, err = sftp.NewClient(sc)
				if err == nil {
					h = handlers.ProxyHandler(cl)
				}
			}
		}
		if err != nil {
			c.Inconclusive("set-up failed: %v", err)
			return
		}
		ok := c.Guard("modifying requests", fs.Inflight, func() {
			for k := 0; k < 6 && !c.Stopped(); k++ {
				c06Session(c, r, v, h, mode)
			}
		})
		if !ok {
			return
		}
		for _, cn := range srv.Conns() {
			for _, p := range cn.Packets() {
				c.Count("remote_packets", 1)
				if !readOnlyPacket(p) {
					c.Violate("remote-modified", "the remote received %s %q flags=%d", p.Name, p.Path, p.Flags)
				}
			}
		}
		if snapshot(fs) != before {
			c.Violate("remote-changed", "the remote tree changed")
		}
		if mode == 1 {
			c06Tree(c, r, v, fs)
		}
		srv.Close()
	}
	c.Need("modifying_requests", 1500)
	c.Need("remote_packets", 200)
}

func c06Session(c *Ctx, r *rand.Rand, v *Volume, h sftp.Handlers, mode int) {
	rc, stop := rawSession(h)
	defer stop()
	var all []*Node
	v.Walk(func(n *Node) { all = append(all, n) })
	pick := func() string {
		n := all[r.Intn(len(all))]
		p := n.Path
		if mode == 2 {
			p = n.CPath
		}
		switch r.Intn(4) {
		case 0:
			return path.Join(p, "new")
		case 1:
			return spell(r, p)
		}
		return p
	}
	files := func() *Node {
		for {
			n := all[r.Intn(len(all))]
			if !n.Dir {
				return n
			}
		}
	}
	for k := 0; k < 40; k++ {
		p := pick()
		var rep Reply
		var err error
		what := ""
		attrs := [][]byte{be32(0), cat(be32(1), be64(0)), cat(be32(4), be32(0777)), cat(be32(8), be32(1), be32(1)), cat(be32(2), be32(0), be32(0))}[r.Intn(5)]
		handle := ""
		switch r.Intn(11) {
		case 0, 1, 2:
			fl := uint32(r.Intn(64))
			if fl&(2|4|8|16) == 0 {
				fl |= []uint32{2, 4, 8, 16}[r.Intn(4)]
			}
			what = fmt.Sprintf("OPEN %q flags=%d", p, fl)
			rep, err = rc.rt(fxOpen, sstr(p), be32(fl), attrs)
		case 3:
			what = fmt.Sprintf("SETSTAT %q", p)
			rep, err = rc.rt(fxSetstat, sstr(p), attrs)
		case 4:
			f := files()
			fp := f.Path
			if mode == 2 {
				fp = f.CPath
			}
			handle, err = rc.open(fp, 1)
			if err != nil {
				c.Violate("read-failed", "open %q for reading failed amid modifying requests: %v", fp, err)
				continue
			}
			if r.Intn(2) == 0 {
				what = fmt.Sprintf("FSETSTAT on %q", fp)
				rep, err = rc.rt(fxFsetstat, sstr(handle), attrs)
			} else {
				what = fmt.Sprintf("WRITE on %q opened for reading", fp)
				rep, err = rc.rt(fxWrite, sstr(handle), be64(uint64(r.Intn(10))), sstr("data"))
			}
		case 5:
			what = fmt.Sprintf("MKDIR %q", p)
			rep, err = rc.rt(fxMkdir, sstr(p), attrs)
		case 6:
			what = fmt.Sprintf("RMDIR %q", p)
			rep, err = rc.rt(fxRmdir, sstr(p))
		case 7:
			what = fmt.Sprintf("REMOVE %q", p)
			rep, err = rc.rt(fxRemove, sstr(p))
		case 8:
			q := pick()
			what = fmt.Sprintf("RENAME %q %q", p, q)
			rep, err = rc.rt(fxRename, sstr(p), sstr(q))
		case 9:
			q := pick()
			what = fmt.Sprintf("SYMLINK %q %q", p, q)
			rep, err = rc.rt(fxSymlink, sstr(p), sstr(q))
		case 10: // a read in between still works
			f := files()
			fp, want := f.Path, f.PT
			if mode == 2 {
				fp, want = f.CPath, f.CT
			}
			b, err := rc.readAll(fp, 32768)
			c.Count("reads_between", 1)
			if err != nil || !eqb(b, want) {
				c.Violate("read-failed", "reading %q amid modifying requests: %v %s", fp, err, diffDesc(b, want))
			}
			continue
		}
		c.Eval(what)
		c.Count("modifying_requests", 1)
		if err != nil {
			c.Violate("session-lost", "%s: %v", what, err)
			return
		}
		if code, _ := rep.status(); rep.Type == fxStatus && code == 0 {
			c.Violate("acknowledged", "%s was acknowledged with success (handler mode %d)", what, mode)
		} else if rep.Type == fxHandle {
			c.Violate("acknowledged", "%s gave a handle (handler mode %d)", what, mode)
		} else {
			c.Count(fmt.Sprintf("refused_type_%d", rep.Type), 1)
		}
		if handle != "" {
			rc.close(handle)
		}
		if k == 3 {
			c.Sample(fmt.Sprintf("%s -> packet type %d", what, rep.Type))
		}
	}
	// extended requests may end the session, but must not succeed
	ext := []string{"posix-rename@openssh.com", "hardlink@openssh.com", "fsync@openssh.com"}[r.Intn(3)]
	rep, err := rc.rt(fxExtended, sstr(ext), sstr(pick()), sstr(pick()))
	c.Eval(ext)
	c.Count("modifying_requests", 1)
	if code, _ := rep.status(); err == nil && rep.Type == fxStatus && code == 0 {
		c.Violate("acknowledged", "extended request %s was acknowledged with success", ext)
	}
}

func c06Tree(c *Ctx, r *rand.Rand, v *Volume, fs *MemFS) {
	ft, err := filetree.Init(v.RootPath, append([]byte{}, v.Password...), 4, fs)
	if err != nil {
		c.Violate("open-failed", "a valid volume does not open: %v", err)
		return
	}
	v.Walk(func(n *Node) {
		for _, p := range []string{n.Path, path.Join(n.Path, "new")} {
			c.Count("modifying_requests", 4)
			c.Eval("tree" + p)
			if _, err := ft.WriteFile(p, []byte("x")); err == nil {
				c.Violate("acknowledged", "FileTree.WriteFile(%q) reports success without writing", p)
			}
			if err := ft.Mkdir(p); err == nil {
				c.Violate("acknowledged", "FileTree.Mkdir(%q) reports success without creating anything", p)
			}
			if err := ft.Rename(p, "/other"); err == nil {
				c.Violate("acknowledged", "FileTree.Rename(%q) reports success", p)
			}
			if err := ft.Remove(p); err == nil {
				c.Violate("acknowledged", "FileTree.Remove(%q) reports success", p)
			}
		}
	})
}

// ---- C08 ----

func runC08(c *Ctx) {
	c.Rule("client paths with dot-dot sequences, doubled slashes, odd bytes, ciphertext names of files, directories, metadata, hashed long names and undecryptable entries, and remotes that return hostile entry names (dot-dot, absolute, with slashes, valid names with path suffixes); " +
		"every path of every remote call is checked to lie in the configured root; a case is one client request")
	c.Assume("the remote is used only through the FSAccessor or SFTP paths, which are both observed")
	rounds := c.N(120, 900)
	for i := 0; i < rounds && !c.Stopped(); i++ {
		r := c.Rand(i)
		roots := []string{"/srv/enc", "/srv/enc/", "/enc", "/srv/../srv/enc", "/a/b/c/d", "/srv//enc"}
		root := roots[r.Intn(len(roots))]
		v := newVolume(r, cfgAll[r.Intn(len(cfgAll))], root)
		randTree(r, v, 8, 12, 6000)
		fs := newMemFS()
		fs.Load(v)
		// secrets outside the root, also reachable by a sloppy prefix
		clean := path.Clean(root)
		fs.put("/etc-secret", []byte("outside"), 0644, v.Root.MTime)
		fs.put(clean+"-other", []byte("outside"), 0644, v.Root.MTime)
		if p := path.Dir(clean); p != "/" {
			fs.put(path.Join(p, "secret"), []byte("outside"), 0644, v.Root.MTime)
			fs.put(path.Join(p, "gocryptfs.diriv"), v.Root.IV, 0644, v.Root.MTime)
		} else {
			fs.put("/gocryptfs.diriv", v.Root.IV, 0644, v.Root.MTime)
		}
		hostile := i%2 == 1
		dirs, files := v.All()
		exists := map[string]bool{}
		v.Walk(func(n *Node) { exists[n.Path] = true })
		// stored entries that have no plaintext name
		var hidden []string
		for _, d := range dirs {
			h := v.Cr.hashLongName(string(randBytes(r, 20)))
			for _, s := range []string{h, h + ".name", "gocryptfs.conf.bak", ".hidden", "plain.txt", v.Cr.encryptName("stranger", randBytes(r, 16))} {
				if _, ok := v.Cr.decryptName(s, d.IV); ok {
					continue
				}
				if p := path.Join(d.CPath, s); r.Intn(3) == 0 {
					fs.mkdir(p, 0755, v.Root.MTime)
					fs.put(path.Join(p, "gocryptfs.diriv"), d.IV, 0400, v.Root.MTime)
				} else {
					fs.put(p, v.Cr.encryptFile(r, []byte("hidden"), randBytes(r, 16), nil), 0644, v.Root.MTime)
				}
				hidden = append(hidden, path.Join(d.Path, s))
			}
		}
		if hostile {
			for _, d := range dirs {
				e := fs.ents[path.Clean(d.CPath)]
				var names []string
				names = append(names, "..", ".", "../secret", "../../etc-secret", "/etc-secret", "/", "a/../../x")
				for _, k := range d.Kids {
					names = append(names, k.CName+"/../..", "../"+k.CName, k.CName+"/../../"+k.CName, k.CName+"\x00", "/"+k.CName, k.CName+"/")
				}
				for _, s := range []string{"..", ".", "../secret", "/etc-secret"} {
					names = append(names, v.Cr.encryptName(s, d.IV))
				}
				for _, n := range names {
					e.kids = append(e.kids, &memInfo{name: n, size: 100, mode: 0644, mtime: v.Root.MTime, isDir: r.Intn(2) == 0})
				}
			}
			fs.Shuffle(r)
		}
		ok := c.Guard("path requests", fs.Inflight, func() {
			view, err := openView(i%3, v, fs, 4, 0)
			if err != nil {
				c.Violate("open-failed", "a valid volume does not open: %v", err)
				return
			}
			defer view.Close()
			for k := 0; k < 150; k++ {
				p, forbidden := c08Path(r, v, dirs, files)
				if r.Intn(8) == 0 {
					p, forbidden = hidden[r.Intn(len(hidden))], true
					c.Count("hidden_entry_requests", 1)
				}
				if exists[path.Clean("/"+p)] { // also the plaintext name of something
					forbidden = false
				}
				c.Eval(fmt.Sprint(view.Kind(), p))
				c.Count("requests", 1)
				c.Current(map[string]string{"path": p})
				var errs [3]error
				var data []byte
				data, errs[0] = view.Read(p)
				_, errs[1] = view.List(p)
				_, errs[2] = view.Stat(p)
				if string(data) == "outside" {
					c.Violate("escaped", "reading %q returned a file outside the root", p)
				}
				if forbidden {
					c.Count("ciphertext_name_requests", 1)
					for j, e := range errs {
						if e == nil {
							c.Violate("ciphertext-name", "%s of %q succeeded via %s", []string{"read", "list", "stat"}[j], p, view.Kind())
						}
					}
				}
				if k == 0 {
					c.Sample(fmt.Sprintf("root %s hostile=%v request %q -> %v", root, hostile, p, errs))
				}
			}
		})
		if !ok {
			return
		}
		for _, cl := range fs.Calls() {
			c.Count("remote_paths", 1)
			q := path.Clean(cl.Path)
			if q != clean && !strings.HasPrefix(q, strings.TrimSuffix(clean, "/")+"/") {
				c.Violate("escaped", "root %s: the remote was asked to %s %q", root, cl.Op, cl.Path)
			}
		}
	}
	for i := 0; i < c.N(14, 90) && !c.Stopped(); i++ {
		c08Links(c, c.Rand(50000+i), i)
	}
	for i := 0; i < c.N(3, 20) && !c.Stopped(); i++ {
		c08Program(c, c.Rand(70000+i))
	}
	c.Need("remote_paths_of_the_program", 50)
	c.Need("requests", 5000)
	c.Need("remote_paths", 1500)
	c.Need("link_packets", 1000)
	c.Need("ciphertext_name_requests", 800)
	c.Need("hidden_entry_requests", 400)
}

// c08Links: the remote is an SSH server on which some stored objects cannot be opened,
// listed or statted and claim to be symbolic links to places outside the root; every
// path of every packet is checked.
func c08Links(c *Ctx, r *rand.Rand, i int) {
	root := []string{"/srv/enc", "/srv/enc/", "/enc", "/a/b/c/d"}[r.Intn(4)]
	clean := path.Clean(root)
	v := newVolume(r, cfgAll[i%len(cfgAll)], root)
	randTree(r, v, 6, 10, 6000)
	fs := newMemFS()
	fs.record = false
	fs.Load(v)
	fs.put("/etc-secret", []byte("outside"), 0644, v.Root.MTime)
	fs.put(path.Join(clean, "..", "secret"), []byte("outside"), 0644, v.Root.MTime)
	fs.mkdir("/outdir", 0755, v.Root.MTime)
	fs.put("/outdir/gocryptfs.diriv", v.Root.IV, 0400, v.Root.MTime)
	s := newSshd(fs, newSigner(r))
	defer s.Close()
	targets := []string{"/etc-secret", "../secret", "../../../../etc-secret", "..", "/", "/outdir", clean + "/../secret"}
	salt := r.Uint32()
	h32 := func(p string, k uint32) uint32 {
		h := salt ^ k*2654435761
		for _, b := range []byte(p) {
			h = (h ^ uint32(b)) * 16777619
		}
		return h >> 7
	}
	s.Readlink = func(p string) string { return targets[h32(p, 1)%uint32(len(targets))] }
	var on int32
	every := uint32([]int{2, 4, 9}[i%3])
	kinds := i / 3 % 3
	s.OnPacket = func(cn *SConn, n int, p SPkt) Action {
		if atomic.LoadInt32(&on) == 0 || path.Base(p.Path) == "gocryptfs.conf" {
			return Action{}
		}
		hit := (p.Type == fxStat || p.Type == fxLstat) && kinds != 1 || (p.Type == fxOpen || p.Type == fxOpendir) && kinds != 0
		if hit && h32(p.Path, 2)%every == 0 {
			c.Count("failing_links", 1)
			return Action{Fail: []uint32{2, 3, 4}[h32(p.Path, 3)%3]}
		}
		return Action{}
	}
	hs, err := openHandlers(v, newProvider(s, r), 4)
	if err != nil {
		c.Violate("start-failed", "a healthy remote is refused: %v", err)
		return
	}
	atomic.StoreInt32(&on, 1)
	var all []*Node
	v.Walk(func(n *Node) { all = append(all, n) })
	rc, stop := rawSession(hs)
	defer stop()
	for pass := 0; pass < 2; pass++ {
		for _, n := range all {
			c.Eval(fmt.Sprint("link", i, n.Path))
			c.Current(map[string]string{"path": n.Path})
			if n.Dir {
				_, _, _ = rc.list(n.Path)
			} else if b, err := rc.readAll(n.Path, 32768); err == nil && !eqb(b, n.PT) {
				c.Violate("escaped", "reading %q returned other content: %s", n.Path, diffDesc(b, n.PT))
			}
			_, _ = rc.rt(fxStat, sstr(n.Path))
			_, _ = rc.rt(fxLstat, sstr(n.Path))
			_, _ = rc.rt(fxReadlink, sstr(n.Path))
		}
	}
	for _, cn := range s.Conns() {
		for _, p := range cn.Packets() {
			if p.Path == "" || p.Type == fxRealpath {
				continue
			}
			c.Count("link_packets", 1)
			q := path.Clean(p.Path)
			if q != clean && !strings.HasPrefix(q, clean+"/") {
				c.Violate("escaped", "root %s: the remote received %s %q (objects that claim to be links)", root, p.Name, p.Path)
			}
		}
	}
}

// c08Program looks at what the running program asks the remote for.
func c08Program(c *Ctx, r *rand.Rand) {
	w := newWorld(c, r, nil)
	defer w.Close()
	p := w.up()
	if p == nil {
		return
	}
	defer p.Kill()
	cl, err := sshClient(w.User, ssh.Password(w.Password))
	if err != nil {
		c.Inconclusive("login: %v", err)
		return
	}
	defer cl.Close()
	ch := session(cl, true)
	if ch == nil {
		c.Inconclusive("no session")
		return
	}
	rc, err := newRawClient(ch)
	if err != nil {
		c.Inconclusive("no sftp session: %v", err)
		return
	}
	dirs, files := w.v.All()
	for k := 0; k < 60; k++ {
		q, _ := c08Path(r, w.v, dirs, files)
		if k%3 == 0 {
			q = files[r.Intn(len(files))].Path
		}
		c.Eval("program" + q)
		_, _ = rc.readAll(q, 32768)
		_, _, _ = rc.list(q)
		_, _ = rc.attrReq(fxStat, q)
	}
	clean := path.Clean(w.v.RootPath)
	for _, cn := range w.sshd.Conns() {
		for _, pk := range cn.Packets() {
			if pk.Path == "" || pk.Type == fxRealpath {
				continue
			}
			c.Count("remote_paths_of_the_program", 1)
			if q := path.Clean(pk.Path); q != clean && !strings.HasPrefix(q, strings.TrimSuffix(clean, "/")+"/") {
				c.Violate("escaped", "root %s: the program asked the remote for %s %q", w.v.RootPath, pk.Name, pk.Path)
			}
		}
	}
}

func c08Path(r *rand.Rand, v *Volume, dirs, files []*Node) (p string, forbidden bool) {
	d := dirs[r.Intn(len(dirs))]
	switch r.Intn(9) {
	case 0:
		return path.Join(d.Path) + strings.Repeat("/..", 1+r.Intn(9)) + "/etc-secret", false
	case 1:
		return strings.Repeat("../", 1+r.Intn(6)) + "secret", false
	case 2:
		return "/" + string(randBytes(r, 1+r.Intn(30))), false
	case 3: // metadata under its ciphertext name
		return path.Join(d.Path, []string{"gocryptfs.conf", "gocryptfs.diriv"}[r.Intn(2)]), true
	case 4:
		if d.Parent != nil {
			return path.Join(d.Parent.Path, d.CName), true
		}
		return "/gocryptfs.conf", true
	case 5:
		f := files[r.Intn(len(files))]
		return path.Join(f.Parent.Path, f.CName), true
	case 6:
		f := files[r.Intn(len(files))]
		return "//" + f.Path + "/./../" + f.Name, false
	case 7:
		f := files[r.Intn(len(files))]
		return f.Path + strings.Repeat("/..", r.Intn(5)), false
	}
	return path.Join(d.Path, "x\x00y", "..", "%2e%2e", "..\\..", "secret"), false
}
