package main

import (
	"fmt"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"
	"time"

	"github.com/flawedmatrix/gocryptsftp/filetree"
)

func init() {
	register("C03", &Check{Run: runC03})
	register("C04", &Check{Run: runC04})
	register("C05", &Check{Run: runC05})
}

// addJunk puts undecryptable and metadata entries next to the real ones of dir. The
// expected listing is computed from what the remote holds with the reference, so a junk
// name that happens to decrypt is expected, too.
func addJunk(r *rand.Rand, v *Volume, fs *MemFS, dir *Node, n int) {
	now := time.Unix(1200000000, 0)
	put := func(name string) {
		if name == "" || name == "." || name == ".." || strings.ContainsAny(name, "/\x00") {
			return
		}
		if b, err := v.Cr.b64.DecodeString(name); err == nil && v.Cr.b64.EncodeToString(b) != name {
			return // another spelling of a name, which may be that of a real entry
		}
		p := path.Join(dir.CPath, name)
		if fs.ents[p] != nil {
			return
		}
		if r.Intn(4) == 0 {
			fs.mkdir(p, 0755, now)
		} else {
			fs.put(p, randBytes(r, r.Intn(100)), 0644, now)
		}
	}
	for i := 0; i < n; i++ {
		switch r.Intn(15) {
		case 13, 14: // a name copied from another directory
			ds, _ := v.All()
			for _, d := range ds {
				if d != dir && len(d.Kids) > 0 {
					put(d.Kids[r.Intn(len(d.Kids))].CName)
				}
			}
		case 0:
			h := v.Cr.hashLongName(string(randBytes(r, 20)))
			put(h)
			put(h + ".name")
		case 1:
			put("gocryptfs.conf.bak")
			put("gocryptfs.diriv.tmp")
			put(".directory")
			put("lost+found")
		case 2:
			put(fmt.Sprintf("plain-%x.txt", randBytes(r, 4)))
		case 3: // encrypted under another IV
			put(v.Cr.encryptName(randName(r), randBytes(r, 16)))
		case 4: // random bytes of a valid length
			put(v.Cr.b64.EncodeToString(randBytes(r, 16*(1+r.Intn(8)))))
		case 5: // not a multiple of 16
			put(v.Cr.b64.EncodeToString(randBytes(r, 1+r.Intn(60))))
		case 6: // authentic, but a forbidden name
			for _, s := range []string{".", "..", "a/b", "/", "/etc", "x\x00y", "\x00"} {
				put(v.Cr.encryptName(s, dir.IV))
			}
		case 7: // authentic encryption of bad padding
			b := randBytes(r, 16*(1+r.Intn(3)))
			b[len(b)-1] = []byte{0, 17, 255, 16, 200}[r.Intn(5)]
			put(v.Cr.encryptRawName(b, dir.IV))
		case 8: // the empty name
			put(v.Cr.encryptRawName(bytesRepeat(16, 16), dir.IV))
		case 9: // padding longer than declared is inconsistent
			b := append([]byte("name"), bytesRepeat(12, 12)...)
			b[5] = 11
			put(v.Cr.encryptRawName(b, dir.IV))
		case 10: // wrong alphabet / the other padding style
			s := v.Cr.encryptName(randName(r), dir.IV)
			if strings.Contains(s, "=") {
				put(strings.TrimRight(s, "="))
			} else if v.Cfg.Raw64 && len(s)%4 != 0 {
				put(s + strings.Repeat("=", 4-len(s)%4))
			}
			put("%" + s)
		case 11: // a real sibling's name with a character cut or changed
			if len(dir.Kids) > 0 {
				s := []byte(dir.Kids[r.Intn(len(dir.Kids))].CName)
				if r.Intn(2) == 0 {
					s = s[:len(s)-2]
				} else {
					i := r.Intn(len(s) - 2)
					s[i] = "ABCDEFab01-_"[r.Intn(12)]
				}
				put(string(s))
			}
		case 12: // interior NUL padding and long padding values
			b := bytesRepeat(32, 1)
			b[30] = 0
			put(v.Cr.encryptRawName(b, dir.IV))
		}
	}
}

func bytesRepeat(n int, b byte) []byte {
	o := make([]byte, n)
	for i := range o {
		o[i] = b
	}
	return o
}

const typeMask = 0170000

// otherTypes are what a remote directory holds besides files and directories.
var otherTypes = []os.FileMode{os.ModeSymlink, os.ModeNamedPipe, os.ModeSocket, os.ModeDevice, os.ModeDevice | os.ModeCharDevice}

// addSpecial puts entries of all other types under names that decrypt.
func addSpecial(r *rand.Rand, v *Volume, fs *MemFS, dir *Node, n int) {
	for i := 0; i < n; i++ {
		name := fmt.Sprintf("special %d %x", i, randBytes(r, 1+r.Intn(20)))
		p := path.Join(dir.CPath, v.Cr.encryptName(name, dir.IV))
		fs.put(p, randBytes(r, r.Intn(60)), otherTypes[r.Intn(len(otherTypes))]|os.FileMode(r.Intn(512)), time.Unix(1300000000+int64(i), 0))
	}
}

// expectListing computes what must be listed from the remote's entries.
func expectListing(v *Volume, fs *MemFS, dir *Node) map[string]uint32 {
	out := map[string]uint32{}
	for _, k := range fs.ents[path.Clean(dir.CPath)].kids {
		if n, ok := v.Cr.decryptName(k.Name(), dir.IV); ok {
			out[n] = permBits(k.Mode()) & typeMask
		}
	}
	return out
}

func runC03(c *Ctx) {
	c.Rule("directories of 0..1200 entries (around the 100-entry page limit), some of thousands,, with metadata, long-name, undecryptable, forbidden and tampered entries mixed in, listed repeatedly through three kinds of client; " +
		"a case is one listing; non-trivial if the directory holds entries")
	c.Assume("two stored names of one directory never decrypt to the same plaintext name (non-canonical base64 spellings are not generated)")
	sizes := []int{0, 1, 2, 50, 98, 99, 100, 101, 102, 199, 200, 201, 250, 300, 301, 999, 1000, 1200}
	rounds := c.N(16, 80)
	for round := 0; round < rounds; round++ {
		for ci, cfg := range cfgAll {
			if cfg.SIV && round%4 != 0 {
				continue
			}
			r := c.Rand(round, ci)
			v := newVolume(r, cfg, rootPaths[r.Intn(len(rootPaths))])
			dirs := []*Node{v.Root}
			for i := 0; i < 4; i++ {
				p := dirs[r.Intn(len(dirs))]
				dirs = append(dirs, v.Mkdir(p, uniqueName(r, p)))
			}
			for _, d := range dirs {
				n := sizes[r.Intn(len(sizes))]
				if n > 350 && r.Intn(3) > 0 {
					n = r.Intn(30)
				}
				if d == v.Root && round == 0 && ci < 2 {
					n = c.N([]int{5000, 17000}[ci], 70000)
				}
				for i := 0; i < n; i++ {
					nm := ""
					if i < 40 {
						nm = uniqueName(r, d)
					} else {
						nm = fmt.Sprintf("entry %d %x", i, randBytes(r, r.Intn(12)))
					}
					if r.Intn(5) == 0 {
						v.Mkdir(d, nm)
					} else {
						v.File(d, nm, randBytes(r, r.Intn(40)), nil)
					}
				}
			}
			fs := newMemFS()
			fs.record = false
			fs.Load(v)
			for _, d := range dirs {
				addJunk(r, v, fs, d, r.Intn(14))
				if r.Intn(2) == 0 {
					addSpecial(r, v, fs, d, r.Intn(6))
				}
			}
			fs.Shuffle(r)
			ok := c.Guard("listing directories", fs.Inflight, func() {
				for kind := 0; kind < 4; kind++ {
					var acc filetree.FSAccessor = fs
					if kind == 0 && (ci+round)%3 == 1 { // through the real backend
						s := newSshd(fs, newSigner(r))
						defer s.Close()
						acc = newProvider(s, r)
						c.Count("volumes_over_ssh", 1)
					}
					view, err := openView(kind, v, acc, []int{1, 4, 32}[r.Intn(3)], 0)
					if err != nil {
						c.Violate("open-failed", "volume does not open: %v", err)
						return
					}
					for pass := 0; pass < 2; pass++ {
						for _, d := range dirs {
							if c.Stopped() {
								break
							}
							c03List(c, view, v, fs, d)
						}
					}
					view.Close()
				}
			})
			if !ok || c.Stopped() {
				return
			}
			// a directory whose listing is damaged must not affect others: an entry gone
			// bad later is simply left out after the caches are fresh (new handler)
		}
	}
	c.Need("listings", 1000)
	c.Need("volumes_over_ssh", 10)
	c.Need("entries_listed", 20000)
	c.Need("listings_over_one_page", 60)
	c.Need("entries_to_hide", 3000)
	c.Need("special_entries", 500)
}

func c03List(c *Ctx, view View, v *Volume, fs *MemFS, d *Node) {
	want := expectListing(v, fs, d)
	kids := len(fs.ents[path.Clean(d.CPath)].kids)
	got, err := view.List(d.Path)
	key := ""
	if kids > 2 {
		key = fmt.Sprint(v.Cfg, kids, len(want), view.Kind(), d.CPath)
	}
	c.Eval(key)
	c.Count("listings", 1)
	c.Count("entries_listed", int64(len(got)))
	c.Count("entries_to_hide", int64(kids-len(want)))
	if len(want) > 100 {
		c.Count("listings_over_one_page", 1)
	}
	if len(want) > 100 && kids > len(want)+4 {
		c.Sample(fmt.Sprintf("%s: directory %q with %d stored entries, %d to be listed, via %s: %d listed", cfgStr(v.Cfg), d.Path, kids, len(want), view.Kind(), len(got)))
	}
	if err != nil {
		c.Violate("list-failed", "%s: listing %q (%d stored entries, %d valid) via %s: %v", cfgStr(v.Cfg), d.Path, kids, len(want), view.Kind(), err)
		return
	}
	seen := map[string]int{}
	for _, e := range got {
		seen[e.Name]++
		if e.Name == "" || e.Name == "." || e.Name == ".." || strings.ContainsAny(e.Name, "/\x00") {
			c.Violate("forbidden-name", "%s: %q lists %q", cfgStr(v.Cfg), d.Path, e.Name)
		}
		typ, known := want[e.Name]
		if !known {
			c.Violate("unexpected-entry", "%s: listing %q via %s shows %q", cfgStr(v.Cfg), d.Path, view.Kind(), e.Name)
		} else if seen[e.Name] > 1 {
			c.Violate("duplicate-entry", "%s: listing %q via %s shows %q %d times", cfgStr(v.Cfg), d.Path, view.Kind(), e.Name, seen[e.Name])
		} else if typ != e.Perm&typeMask {
			c.Violate("wrong-type", "%s: listing %q via %s: %q has type %o, want %o", cfgStr(v.Cfg), d.Path, view.Kind(), e.Name, e.Perm&typeMask, typ)
		} else if typ != 0040000 && typ != 0100000 {
			c.Count("special_entries", 1)
		}
	}
	var missing []string
	for n := range want {
		if seen[n] == 0 {
			missing = append(missing, fmt.Sprintf("%q", n))
		}
	}
	if len(missing) > 0 {
		sort.Strings(missing)
		if len(missing) > 5 {
			missing = missing[:5]
		}
		c.Violate("missing-entry", "%s: listing %q via %s: %d of %d shown, missing %s", cfgStr(v.Cfg), d.Path, view.Kind(), len(got), len(want), strings.Join(missing, ", "))
	}
}

// ---- C04 ----

// spell gives another spelling of an absolute path.
func spell(r *rand.Rand, p string) string {
	for k := 0; k < r.Intn(4); k++ {
		switch r.Intn(5) {
		case 0:
			p = p + "/"
		case 1:
			i := strings.Index(p, "/")
			p = p[:i] + "/." + p[i:]
		case 2:
			p = strings.Replace(p, "/", "//", 1+r.Intn(2))
		case 3:
			p = "/nonexistent/.." + p
		case 4:
			p = p + "/../" + path.Base(path.Clean(p))
		}
	}
	return p
}

func runC04(c *Ctx) {
	c.Rule("volumes with 40-120 directories (several times the path cache), deep chains, equal base names in different directories and look-alike names; random histories of stat, list and read " +
		"with spelling variants and non-existing paths through three kinds of client; a case is one request in its history; non-trivial if not at the root")
	c.Assume("objects are recognised by their unique modification time and content")
	vols := c.N(100, 600)
	ops := c.N(1200, 3000)
	for i := 0; i < vols && !c.Stopped(); i++ {
		r := c.Rand("vol", i)
		v := newVolume(r, cfgAll[i%len(cfgAll)], rootPaths[r.Intn(len(rootPaths))])
		c04Tree(r, v)
		fs := newMemFS()
		fs.record = false
		fs.Load(v)
		fs.Shuffle(r)
		byPath := map[string]*Node{}
		var all []*Node
		v.Walk(func(n *Node) { byPath[n.Path] = n; all = append(all, n) })
		var view View
		if !c.Guard("path history", fs.Inflight, func() {
			var err error
			view, err = openView(i%4, v, fs, []int{1, 3, 16}[r.Intn(3)], 0)
			if err != nil {
				c.Violate("open-failed", "volume does not open: %v", err)
				return
			}
			defer view.Close()
			// phases with different locality
			var working []*Node
			for k := 0; k < ops && !c.Stopped(); k++ {
				if k%60 == 0 {
					working = nil
					m := []int{5, 17, 18, 40, len(all)}[r.Intn(5)]
					for j := 0; j < m; j++ {
						n := all[r.Intn(len(all))]
						working = append(working, n)
						if n.Parent != nil && r.Intn(2) == 0 {
							working = append(working, n.Parent.Kids[r.Intn(len(n.Parent.Kids))])
						}
					}
				}
				c04Op(c, r, v, view, byPath, working[r.Intn(len(working))])
			}
		}) {
			return
		}
	}
	c.Need("existing", 10000)
	c.Need("nonexisting", 4000)
}

func c04Tree(r *rand.Rand, v *Volume) {
	ds := []*Node{v.Root}
	nd := 40 + r.Intn(80)
	common := []string{"a", "b", "docs", "a.", ".a", "A", "aa", "a b", "docs2"}
	has := func(p *Node, n string) bool {
		for _, k := range p.Kids {
			if k.Name == n {
				return true
			}
		}
		return false
	}
	for len(ds) < nd {
		p := ds[r.Intn(len(ds))]
		if r.Intn(4) == 0 {
			p = ds[len(ds)-1]
		}
		n := common[r.Intn(len(common))]
		if r.Intn(2) == 0 {
			n = uniqueName(r, p)
		}
		if has(p, n) {
			continue
		}
		ds = append(ds, v.Mkdir(p, n))
	}
	if r.Intn(5) == 0 { // a deep chain of long names with twins at its end
		d := ds[r.Intn(len(ds))]
		nm := strings.Repeat("level", 1+r.Intn(20))
		for k := 20 + r.Intn(60); k > 0; k-- {
			if has(d, nm) {
				break
			}
			d = v.Mkdir(d, nm)
			if k < 20 {
				ds = append(ds, d)
			}
		}
		for k := 0; k < 4; k++ {
			if n := fmt.Sprint("end", k); !has(d, n) {
				ds = append(ds, v.Mkdir(d, n))
			}
		}
	}
	for i := 0; i < 25; i++ { // look-alikes of existing directories
		d := ds[1+r.Intn(len(ds)-1)]
		nm := nearMisses(r, d.Name)
		n := nm[r.Intn(len(nm))]
		if !has(d.Parent, n) {
			ds = append(ds, v.Mkdir(d.Parent, n))
		}
	}
	for i, d := range ds {
		for k := 0; k < r.Intn(4); k++ {
			n := []string{"f", "g", "readme.txt", "f.", "F", "docs3"}[r.Intn(6)]
			if r.Intn(3) == 0 {
				n = uniqueName(r, d)
			}
			if !has(d, n) {
				v.File(d, n, []byte(fmt.Sprintf("object %d %d of %x", i, k, v.Master[:4])), nil)
			}
		}
	}
}

func c04Op(c *Ctx, r *rand.Rand, v *Volume, view View, byPath map[string]*Node, n *Node) {
	p := n.Path
	switch r.Intn(10) {
	case 0: // something that does not exist, or goes through a file
		q := path.Join(n.Path, randName(r))
		switch r.Intn(9) {
		case 7, 8: // a look-alike, or something below one
			if n.Parent != nil {
				nm := nearMisses(r, n.Name)
				q = path.Join(n.Parent.Path, nm[r.Intn(len(nm))])
				if len(n.Kids) > 0 && r.Intn(2) == 0 {
					q = path.Join(q, n.Kids[r.Intn(len(n.Kids))].Name)
				}
			}
		case 0:
			q = path.Join(n.Path, "f")
		case 1:
			q = n.Path + "x"
		case 2:
			q = strings.ToUpper(n.Path)
		case 3:
			if n.Parent != nil {
				q = path.Join(n.Parent.Path, n.CName) // ciphertext name
			}
		case 4:
			if n.Parent != nil && n.Parent.Parent != nil { // a level skipped
				q = path.Join(n.Parent.Parent.Path, n.Name)
			}
		case 5:
			q = path.Join(n.Path, "gocryptfs.diriv")
		}
		p = q
	case 1:
		if n.Parent != nil { // a child of a file
			p = path.Join(n.Path, n.Name)
		}
	}
	s := spell(r, p)
	if view.Kind() == "filetree" && r.Intn(8) == 0 {
		s = strings.TrimLeft(s, "/") // a relative path means the same
	}
	want := byPath[path.Clean("/"+s)]
	key := ""
	if p != "/" {
		key = fmt.Sprint(v.Master[0], view.Kind(), s)
	}
	op := r.Intn(3)
	c.Eval(key)
	if want == nil {
		c.Count("nonexisting", 1)
	} else {
		c.Count("existing", 1)
	}
	c.Current(map[string]interface{}{"op": op, "path": s, "view": view.Kind()})
	switch op {
	case 0:
		e, err := view.Stat(s)
		switch {
		case want == nil && err == nil:
			c.Violate("resolved-nonexisting", "stat %q via %s: found (mtime %d), but there is no such object", s, view.Kind(), e.MTime)
		case want != nil && err != nil:
			c.Violate("not-found", "stat %q via %s: %v", s, view.Kind(), err)
		case want != nil:
			if e.MTime != want.MTime.Unix() || e.dir() != want.Dir {
				c.Violate("wrong-object", "stat %q via %s gives the object with mtime %d directory=%v, want mtime %d directory=%v", s, view.Kind(), e.MTime, e.dir(), want.MTime.Unix(), want.Dir)
			}
		}
	case 1:
		l, err := view.List(s)
		switch {
		case want == nil && err == nil:
			c.Violate("resolved-nonexisting", "list %q via %s: %d entries, but there is no such directory", s, view.Kind(), len(l))
		case want != nil && !want.Dir && err == nil:
			c.Violate("listed-file", "list %q via %s: %d entries, but it is a file", s, view.Kind(), len(l))
		case want != nil && want.Dir && err != nil:
			c.Violate("not-found", "list %q via %s: %v", s, view.Kind(), err)
		case want != nil && want.Dir:
			if d := listingDiff(l, want.Kids, true); d != "" {
				c.Violate("wrong-object", "list %q via %s: %s", s, view.Kind(), d)
			}
		}
	case 2:
		b, err := view.Read(s)
		switch {
		case (want == nil || want.Dir) && err == nil:
			c.Violate("resolved-nonexisting", "read %q via %s: %q, but there is no such file", s, view.Kind(), clip(string(b), 60))
		case want != nil && !want.Dir && err != nil:
			c.Violate("not-found", "read %q via %s: %v", s, view.Kind(), err)
		case want != nil && !want.Dir:
			if !eqb(b, want.PT) {
				c.Violate("wrong-object", "read %q via %s: %q, want %q", s, view.Kind(), clip(string(b), 60), want.PT)
			}
		}
	}
	if want != nil && op == 2 && !want.Dir && len(s) < 100 {
		c.Sample(fmt.Sprintf("%s: read %q -> %q", view.Kind(), s, want.PT))
	}
}

// ---- C05 ----

func runC05(c *Ctx) {
	c.Rule("files of all boundary sizes (0..3 blocks exhaustively near the borders, random up to 300 KB) and directories with random permission bits and times; size, type, permissions and time " +
		"compared between listing, stat, lstat, fstat, the bytes a full read returns and the remote object; a case is (volume kind, object, way of asking)")
	c.Assume("the sizes of directories are not specified")
	vols := c.N(64, 400)
	for i := 0; i < vols && !c.Stopped(); i++ {
		r := c.Rand("vol", i)
		v := newVolume(r, cfgAll[i%len(cfgAll)], rootPaths[r.Intn(len(rootPaths))])
		dirs := []*Node{v.Root}
		for k := 0; k < 5; k++ {
			p := dirs[r.Intn(len(dirs))]
			dirs = append(dirs, v.Mkdir(p, uniqueName(r, p)))
		}
		for k := 0; k < 70; k++ {
			n := interestingSize(r, 300000)
			if k < 40 {
				n = refBS*r.Intn(4) + r.Intn(80) - 40
			}
			if n < 0 {
				n = 0
			}
			pt, holes := genPT(r, n)
			d := dirs[r.Intn(len(dirs))]
			f := v.File(d, uniqueName(r, d), pt, holes)
			if n == 0 && r.Intn(2) == 0 {
				f.CT = cat([]byte{0, 2}, f.ID)
			}
		}
		fs := newMemFS()
		fs.record = false
		fs.Load(v)
		// what the remote says about objects too large to read here
		huge := map[*Node][]Entry{}
		for k := 0; k < 12; k++ {
			d := dirs[r.Intn(len(dirs))]
			name := fmt.Sprintf("huge %d %x", k, randBytes(r, 3))
			blocks := r.Int63n([]int64{1 << 10, 1 << 20, 1 << 31, 1 << 40, 1 << 49}[r.Intn(5)])
			if r.Intn(3) == 0 { // around the 2 GB and 4 GB borders
				blocks = (int64(1)<<(31+r.Intn(2)))/refBS + int64(r.Intn(5)-2)
			}
			tail := int64(0)
			if blocks == 0 || r.Intn(2) == 0 {
				tail = int64([]int{1, 2, 4095, 1 + r.Intn(4095)}[r.Intn(4)])
			}
			pt, ct := blocks*refBS+tail, 18+blocks*(refBS+32)+tail
			if tail > 0 {
				ct += 32
			}
			mode := os.FileMode(r.Intn(512))
			if r.Intn(3) == 0 {
				mode |= []os.FileMode{os.ModeSetuid, os.ModeSetgid, os.ModeSticky}[r.Intn(3)]
			}
			mt := time.Unix([]int64{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1, r.Int63n(1 << 32), r.Int63n(1 << 31)}[r.Intn(7)], 0)
			p := path.Join(d.CPath, v.Cr.encryptName(name, d.IV))
			fs.put(p, nil, mode, mt)
			fs.ents[path.Clean(p)].info.size = ct
			huge[d] = append(huge[d], Entry{name, pt, permBits(mode), mt.Unix()})
		}
		fs.Shuffle(r)
		if !c.Guard("attributes", fs.Inflight, func() {
			for kind := 0; kind < 4; kind++ {
				view, err := openView(kind, v, fs, 8, 0)
				if err != nil {
					c.Violate("open-failed", "volume does not open: %v", err)
					return
				}
				c05View(c, v, view)
				c05Huge(c, v, view, huge)
				view.Close()
			}
		}) {
			return
		}
	}
	c.Need("stat", 2000)
	c.Need("fstat", 500)
	c.Need("listed", 2000)
	c.Need("huge", 1000)
}

func c05View(c *Ctx, v *Volume, view View) {
	v.Walk(func(n *Node) {
		if c.Stopped() {
			return
		}
		want := nodeEntry(n)
		report := func(how string, got Entry, err error, name bool) {
			c.Eval(fmt.Sprint(v.Cfg, how, view.Kind(), want))
			c.Count(how, 1)
			if err != nil {
				c.Violate(how+"-failed", "%s: %s %q via %s: %v", cfgStr(v.Cfg), how, n.Path, view.Kind(), err)
			} else if d := entryDiff(got, want, name); d != "" {
				c.Violate(how+"-wrong", "%s: %s %q (stored as %d bytes) via %s: %s", cfgStr(v.Cfg), how, n.Path, len(n.CT), view.Kind(), d)
			}
		}
		e, err := view.Stat(n.Path)
		report("stat", e, err, n.Parent != nil && view.Kind() == "filetree")
		if rv, ok := view.(*rawView); ok {
			a, err := rv.c.attrReq(fxLstat, n.Path)
			report("lstat", Entry{n.Name, int64(a.Size), a.Perm, int64(a.Mtime)}, err, false)
			if !n.Dir {
				h, err := rv.c.open(n.Path, 1)
				if err != nil {
					c.Violate("open-failed", "open %q: %v", n.Path, err)
				} else {
					a, err := rv.c.attrReq(fxFstat, h)
					report("fstat", Entry{n.Name, int64(a.Size), a.Perm, int64(a.Mtime)}, err, false)
					rv.c.close(h)
				}
			}
		}
		if n.Dir {
			l, err := view.List(n.Path)
			if err != nil {
				c.Violate("list-failed", "list %q: %v", n.Path, err)
				return
			}
			for _, e := range l {
				for _, k := range n.Kids {
					if k.Name == e.Name {
						c.Count("listed", 1)
						c.Eval(fmt.Sprint(v.Cfg, "list", view.Kind(), nodeEntry(k)))
						if d := entryDiff(e, nodeEntry(k), true); d != "" {
							c.Violate("listing-wrong", "%s: listing of %q via %s: entry %q (stored as %d bytes): %s", cfgStr(v.Cfg), n.Path, view.Kind(), k.Name, len(k.CT), d)
						}
					}
				}
			}
			return
		}
		b, err := view.Read(n.Path)
		c.Count("full_reads", 1)
		if err != nil {
			c.Violate("read-failed", "read %q: %v", n.Path, err)
		} else if int64(len(b)) != e.Size {
			c.Violate("size-differs", "%s: stat of %q says %d bytes, a full read gives %d", cfgStr(v.Cfg), n.Path, e.Size, len(b))
		}
		if len(n.Path) < 60 {
			c.Sample(fmt.Sprintf("%s %q: size %d (stored %d), mode %o, mtime %d", view.Kind(), n.Path, e.Size, len(n.CT), e.Perm, e.MTime))
		}
	})
}

// c05Huge compares the attributes of files that are too large to be read.
func c05Huge(c *Ctx, v *Volume, view View, huge map[*Node][]Entry) {
	for d, es := range huge {
		l, err := view.List(d.Path)
		if err != nil {
			c.Violate("list-failed", "list %q: %v", d.Path, err)
			return
		}
		got := map[string]Entry{}
		for _, e := range l {
			got[e.Name] = e
		}
		for _, w := range es {
			c.Eval(fmt.Sprint(v.Cfg, "huge", view.Kind(), w))
			c.Count("huge", 1)
			if x, ok := got[w.Name]; !ok {
				c.Violate("listing-wrong", "%s: listing of %q via %s leaves out %q of %d bytes", cfgStr(v.Cfg), d.Path, view.Kind(), w.Name, w.Size)
			} else if df := entryDiff(x, w, true); df != "" {
				c.Violate("listing-wrong", "%s: listing of %q via %s: entry %q: %s", cfgStr(v.Cfg), d.Path, view.Kind(), w.Name, df)
			}
			x, err := view.Stat(path.Join(d.Path, w.Name))
			if err != nil {
				c.Violate("stat-failed", "%s: stat %q via %s: %v", cfgStr(v.Cfg), path.Join(d.Path, w.Name), view.Kind(), err)
			} else if df := entryDiff(x, w, false); df != "" {
				c.Violate("stat-wrong", "%s: stat %q via %s: %s", cfgStr(v.Cfg), path.Join(d.Path, w.Name), view.Kind(), df)
			}
		}
	}
}

func sortStrings(l []string) { sort.Strings(l) }
