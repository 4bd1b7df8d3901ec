package main

import (
	"fmt"
	"math/rand"
	"os"
	"path"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Node is one object of a test volume, with everything the oracle needs.
type Node struct {
	Name   string // plaintext
	CName  string // ciphertext base name
	Path   string // plaintext path
	CPath  string // ciphertext path at the remote
	Dir    bool
	IV     []byte
	PT     []byte
	CT     []byte
	ID     []byte
	Mode   os.FileMode
	MTime  time.Time
	Kids   []*Node
	Parent *Node
}

type Volume struct {
	Cfg      VolCfg
	Master   []byte
	Password []byte
	Conf     *RefConf
	Cr       *RefCrypto
	Root     *Node
	RootPath string
	rnd      *rand.Rand
	nextTime int64
	lastIV   []byte
}

func newVolume(rnd *rand.Rand, cfg VolCfg, rootPath string) *Volume {
	v := &Volume{Cfg: cfg, RootPath: rootPath, rnd: rnd, nextTime: 1000000000}
	v.Master = randBytes(rnd, 32)
	v.Password = []byte(fmt.Sprintf("pw-%x", randBytes(rnd, 8)))
	v.Conf = refMakeConf(rnd, v.Master, v.Password, cfg, 10)
	v.Cr = newRefCrypto(v.Master, cfg)
	v.Root = &Node{Name: "/", Path: "/", CPath: path.Clean(rootPath), Dir: true, IV: v.newIV(), Mode: os.ModeDir | 0755, MTime: v.time()}
	return v
}

// newIV: sometimes an IV shares a part with an earlier one, or is the same.
func (v *Volume) newIV() []byte {
	iv := randBytes(v.rnd, 16)
	if v.lastIV != nil {
		switch v.rnd.Intn(9) {
		case 0:
			copy(iv, v.lastIV[:8])
		case 1:
			copy(iv[8:], v.lastIV[8:])
		case 2:
			copy(iv, v.lastIV[:15])
		case 3:
			copy(iv[1:], v.lastIV[1:])
		case 4: // a directory that was copied at the remote
			copy(iv, v.lastIV)
		}
	}
	v.lastIV = iv
	return iv
}
func (v *Volume) time() time.Time {
	v.nextTime += 1 + v.rnd.Int63n(1000)
	return time.Unix(v.nextTime, 0)
}

func (v *Volume) add(parent *Node, name string, n *Node) *Node {
	n.Name = name
	n.Parent = parent
	n.Path = path.Join(parent.Path, name)
	if n.CName == "" {
		n.CName = v.Cr.encryptName(name, parent.IV)
	}
	n.CPath = path.Join(parent.CPath, n.CName)
	n.MTime = v.time()
	parent.Kids = append(parent.Kids, n)
	return n
}

var fileModes = []os.FileMode{0644, 0600, 0400, 0755, 0444, 0666, 0640, 0777, 04755, 0000}

func (v *Volume) Mkdir(parent *Node, name string) *Node {
	return v.add(parent, name, &Node{Dir: true, IV: v.newIV(), Mode: os.ModeDir | []os.FileMode{0755, 0700, 0500, 0777}[v.rnd.Intn(4)]})
}

func (v *Volume) File(parent *Node, name string, pt []byte, holes map[int]bool) *Node {
	n := &Node{PT: pt, ID: randBytes(v.rnd, 16), Mode: fileModes[v.rnd.Intn(len(fileModes))] &^ (04000)}
	n.CT = v.Cr.encryptFile(v.rnd, pt, n.ID, holes)
	return v.add(parent, name, n)
}

// Walk visits all nodes, parents first.
func (v *Volume) Walk(fn func(*Node)) {
	var w func(*Node)
	w = func(n *Node) {
		fn(n)
		for _, k := range n.Kids {
			w(k)
		}
	}
	w(v.Root)
}

func (v *Volume) All() (dirs, files []*Node) {
	v.Walk(func(n *Node) {
		if n.Dir {
			dirs = append(dirs, n)
		} else {
			files = append(files, n)
		}
	})
	return
}

// ---- in-memory remote ----

type memEnt struct {
	info *memInfo
	data []byte
	kids []os.FileInfo
}

type memInfo struct {
	name  string
	size  int64
	mode  os.FileMode
	mtime time.Time
	isDir bool
}

func (m *memInfo) Name() string       { return m.name }
func (m *memInfo) Size() int64        { return m.size }
func (m *memInfo) Mode() os.FileMode  { return m.mode }
func (m *memInfo) ModTime() time.Time { return m.mtime }
func (m *memInfo) IsDir() bool        { return m.isDir }
func (m *memInfo) Sys() interface{}   { return nil }

type Call struct {
	Op   string
	Path string
}

// MemFS implements the remote accessor, records each call and applies injected faults.
type MemFS struct {
	mu       sync.Mutex
	ents     map[string]*memEnt
	calls    []Call
	record   bool
	inflight int64
	total    int64
	// Before may delay or fail a call (returning a non-nil error). Called without locks.
	Before func(op, p string) error
	// After may replace the result of a successful call.
	AfterRead func(p string, b []byte) ([]byte, error)
	AfterList func(p string, l []os.FileInfo) ([]os.FileInfo, error)
	AfterStat func(p string, i os.FileInfo) (os.FileInfo, error)
}

func newMemFS() *MemFS { return &MemFS{ents: map[string]*memEnt{}, record: true} }

func (m *MemFS) put(p string, data []byte, mode os.FileMode, mt time.Time) {
	p = path.Clean(p)
	in := &memInfo{name: path.Base(p), size: int64(len(data)), mode: mode, mtime: mt}
	m.ents[p] = &memEnt{info: in, data: data}
	m.link(p, in)
}

func (m *MemFS) mkdir(p string, mode os.FileMode, mt time.Time) {
	p = path.Clean(p)
	in := &memInfo{name: path.Base(p), size: 4096, mode: mode | os.ModeDir, mtime: mt, isDir: true}
	m.ents[p] = &memEnt{info: in, kids: []os.FileInfo{}}
	m.link(p, in)
}

func (m *MemFS) link(p string, in os.FileInfo) {
	if d := m.ents[path.Dir(p)]; d != nil && p != path.Dir(p) {
		for i, k := range d.kids {
			if k.Name() == in.Name() {
				d.kids[i] = in
				return
			}
		}
		d.kids = append(d.kids, in)
	}
}

func (m *MemFS) enter(op, p string) (*memEnt, error) {
	atomic.AddInt64(&m.inflight, 1)
	atomic.AddInt64(&m.total, 1)
	m.mu.Lock()
	if m.record {
		m.calls = append(m.calls, Call{op, p})
	}
	m.mu.Unlock()
	if m.Before != nil {
		if err := m.Before(op, p); err != nil {
			return nil, err
		}
	}
	m.mu.Lock()
	e := m.ents[path.Clean(p)]
	m.mu.Unlock()
	if e == nil {
		return nil, os.ErrNotExist
	}
	return e, nil
}
func (m *MemFS) leave()          { atomic.AddInt64(&m.inflight, -1) }
func (m *MemFS) Inflight() int64 { return atomic.LoadInt64(&m.inflight) }

func (m *MemFS) ReadFile(p string) ([]byte, error) {
	defer m.leave()
	e, err := m.enter("ReadFile", p)
	if err != nil {
		return nil, err
	}
	if e.info.isDir {
		return nil, fmt.Errorf("%s: is a directory", p)
	}
	b := append([]byte(nil), e.data...)
	if m.AfterRead != nil {
		return m.AfterRead(p, b)
	}
	return b, nil
}

func (m *MemFS) ReadDir(p string) ([]os.FileInfo, error) {
	defer m.leave()
	e, err := m.enter("ReadDir", p)
	if err != nil {
		return nil, err
	}
	if !e.info.isDir {
		return nil, fmt.Errorf("%s: not a directory", p)
	}
	l := append([]os.FileInfo(nil), e.kids...)
	if m.AfterList != nil {
		return m.AfterList(p, l)
	}
	return l, nil
}

func (m *MemFS) Stat(p string) (os.FileInfo, error) {
	defer m.leave()
	e, err := m.enter("Stat", p)
	if err != nil {
		return nil, err
	}
	if m.AfterStat != nil {
		return m.AfterStat(p, e.info)
	}
	return e.info, nil
}

func (m *MemFS) Calls() []Call {
	m.mu.Lock()
	defer m.mu.Unlock()
	return append([]Call(nil), m.calls...)
}

func (m *MemFS) CallCount() map[Call]int {
	r := map[Call]int{}
	for _, c := range m.Calls() {
		r[c]++
	}
	return r
}

// Load stores the encrypted form of the volume.
func (m *MemFS) Load(v *Volume) {
	for _, p := range prefixes(v.Root.CPath) {
		if m.ents[p] == nil {
			m.mkdir(p, 0755, time.Unix(900000000, 0))
		}
	}
	v.Walk(func(n *Node) {
		if n.Dir {
			m.mkdir(n.CPath, n.Mode, n.MTime)
			m.put(path.Join(n.CPath, "gocryptfs.diriv"), n.IV, 0440, n.MTime)
			if n == v.Root {
				m.put(path.Join(n.CPath, "gocryptfs.conf"), v.Conf.JSON(), 0400, n.MTime)
			}
		} else {
			m.put(n.CPath, n.CT, n.Mode, n.MTime)
		}
	})
}

// Shuffle permutes the order in which listings are returned.
func (m *MemFS) Shuffle(r *rand.Rand) {
	ps := []string{}
	for p := range m.ents {
		ps = append(ps, p)
	}
	sort.Strings(ps)
	for _, p := range ps {
		k := m.ents[p].kids
		r.Shuffle(len(k), func(i, j int) { k[i], k[j] = k[j], k[i] })
	}
}

func prefixes(p string) []string {
	out := []string{"/"}
	cur := ""
	for _, s := range strings.Split(strings.Trim(p, "/"), "/") {
		if s == "" {
			continue
		}
		cur += "/" + s
		out = append(out, cur)
	}
	return out
}

// ---- generators ----

var cfgAll = func() []VolCfg {
	var l []VolCfg
	for i := 0; i < 16; i++ {
		l = append(l, VolCfg{HKDF: i&1 == 0, Raw64: i&2 == 0, LongNames: i&4 == 0, SIV: i&8 != 0})
	}
	return l
}()

// randName: valid plaintext names of interesting shapes; at most 175 bytes so that the
// stored name stays below 255 (longer names are stored hashed, which is unsupported).
func randName(r *rand.Rand) string {
	for {
		if r.Intn(10) == 0 {
			return oddNames[r.Intn(len(oddNames))]
		}
		var n int
		switch r.Intn(6) {
		case 0:
			n = 1 + r.Intn(3)
		case 1:
			n = 16*(1+r.Intn(9)) + r.Intn(3) - 1
		case 2:
			n = 150 + r.Intn(26)
		default:
			n = 1 + r.Intn(40)
		}
		b := make([]byte, n)
		switch r.Intn(4) {
		case 0:
			r.Read(b)
		case 1:
			const a = " .-_+=%~#'\"\\*?[]{}$&;|<>()!@^,`\t\r\n"
			for i := range b {
				b[i] = a[r.Intn(len(a))]
			}
		case 2:
			s := ""
			for len(s) < n {
				s += string([]rune("äß漢字🙂éабв")[r.Intn(9)])
			}
			b = []byte(s)[:n]
		default:
			const a = "abcdefghijklmnopqrstuvwxyzABCXYZ0123456789._-"
			for i := range b {
				b[i] = a[r.Intn(len(a))]
			}
		}
		s := string(b)
		if s == "." || s == ".." || strings.ContainsAny(s, "/\x00") {
			continue
		}
		return s
	}
}

// oddNames are valid plaintext names that a careless comparison or filter could confuse.
var oddNames = []string{"gocryptfs.conf", "gocryptfs.diriv", "gocryptfs.longname.abc", "gocryptfs.longname.abc.name", "gocryptfs.x",
	".gocryptfs.reverse.conf", "gocryptfs", ".directory", "...", "....", ".. ", " ..", ". ", "..a", ".a", "a.", " ", "  ", "~", "-", "-rf", "*", "con", "nul",
	"lost+found", "%2e%2e", "%2F", "\\", "a\\b", "\xff", "\n", "a\nb", "\t", "\x7f", "\xe9", "\u00e9", "e\u0301", "\u212a", "K", "k", "\u0131", "I", "\u2028", "\ufeff",
	"0", "-1", "null", "true", "==", "AAAA", "desktop.ini", "Thumbs.db", ".DS_Store", "._x", ".nfs0001", ".fuse_hidden1", "x.tmp", "x.bak", "x~", "#x#"}

// nearMisses are other names that look like s.
func nearMisses(r *rand.Rand, s string) []string {
	l := []string{s + " ", " " + s, s + ".", "." + s, s + "\n", s + "\t", s + "\r", s + "~", s + s, strings.ToUpper(s), strings.ToLower(s), strings.Title(s),
		strings.TrimSpace(s), strings.Trim(s, "."), s + "\u0301", s + "\u200b", s + "\xff", s + "=", s + "%", "%" + s, s + "\\", s + "*", s + "?", "-" + s}
	if len(s) > 1 {
		l = append(l, s[:len(s)-1], s[1:])
		b := []byte(s)
		b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		l = append(l, string(b))
	}
	if len(s) > 8 {
		l = append(l, s[:8], s[len(s)-8:])
	}
	out := l[:0]
	for _, x := range l {
		if x != "" && x != s && x != "." && x != ".." && len(x) <= 175 && !strings.ContainsAny(x, "/\x00") {
			out = append(out, x)
		}
	}
	return out
}

// uniqueName picks a name not yet used in dir.
func uniqueName(r *rand.Rand, dir *Node) string {
	for {
		s := randName(r)
		ok := true
		for _, k := range dir.Kids {
			if k.Name == s {
				ok = false
				break
			}
		}
		if ok {
			return s
		}
	}
}

// genPT makes content of length n with a choice of textures; holes are block numbers
// whose plaintext is zero.
func genPT(r *rand.Rand, n int) (pt []byte, holes map[int]bool) {
	holes = map[int]bool{}
	pt = make([]byte, n)
	switch r.Intn(4) {
	case 0: // zeros, really encrypted
	case 1:
		for i := range pt {
			pt[i] = byte(i/refBS) ^ byte(i)
		}
	default:
		r.Read(pt)
	}
	if r.Intn(3) == 0 {
		for b := 0; (b+1)*refBS <= n; b++ {
			if r.Intn(3) == 0 {
				holes[b] = true
				for i := b * refBS; i < (b+1)*refBS; i++ {
					pt[i] = 0
				}
			}
		}
	}
	return
}

// interestingSize: sizes near block, pool and packet boundaries.
func interestingSize(r *rand.Rand, max int) int {
	var n int
	switch r.Intn(8) {
	case 0:
		n = r.Intn(64)
	case 1:
		n = refBS*r.Intn(40) + r.Intn(5) - 2
	case 2: // around the pooled buffer size (33 blocks) and 128 KiB
		n = refBS*(31+r.Intn(4)) + r.Intn(5) - 2
	case 3:
		n = r.Intn(8192)
	case 4:
		n = 32768*r.Intn(6) + r.Intn(3) - 1
	case 5:
		n = r.Intn(max)
	default:
		n = r.Intn(200000)
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n = max
	}
	return n
}
