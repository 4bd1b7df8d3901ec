package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"path"
	"strings"
	"sync"
	"sync/atomic"

	"github.com/flawedmatrix/gocryptsftp/handlers"
)

func init() {
	register("C07", &Check{Run: runC07})
}

type damaged struct {
	path string // client path
	ct   []byte // for files: what the remote holds
	dir  bool
	what string
	// listing expectations: a damaged directory may fail or show only these
	valid map[string]bool
}

var oddIVs = []int{0, 1, 2, 7, 8, 12, 14, 15, 17, 18, 24, 31, 32, 33, 48, 64, 100, 255, 256, 1000, 4096}
var oddLens = []int{1, 2, 3, 16, 17, 18, 19, 20, 30, 33, 34, 35, 48, 49, 50, 51, 52, 66, 100, 4145, 4146, 4147, 4148, 4160, 4177, 4178, 4179, 4180, 8274, 8275, 8300, 8306, 8307, 135186, 140000}

func runC07(c *Ctx) {
	c.Rule("volumes with healthy objects next to directories with IVs of 21 wrong lengths, entry names of all kinds (decoding to 0..100 KB, bad padding, odd bytes), files of 35 odd lengths with valid and invalid headers, authentic files cut or extended after each of 0..49 bytes of a later block, " +
		"impossible sizes, types and modes, and remotes failing the k-th call; every damaged object is listed, statted and read while other sessions check healthy ones; a case is (damage, operation); a crash of the process is a violation")
	c.Assume("the volume configuration itself is well-formed (start-up is C22)")
	rounds := c.N(40, 400)
	for i := 0; i < rounds && !c.Stopped(); i++ {
		r := c.Rand(i)
		c07Volume(c, r, i)
	}
	for i := 0; i < c.N(16, 100) && !c.Stopped(); i++ {
		c07Faults(c, c.Rand("fault", i), i)
	}
	c.Need("damaged_requests", 2000)
	c.Need("healthy_checks", 2000)
	c.Need("fault_points", 100)
}

func c07Volume(c *Ctx, r *rand.Rand, i int) {
	v := newVolume(r, cfgAll[i%len(cfgAll)], rootPaths[r.Intn(len(rootPaths))])
	good := v.Mkdir(v.Root, "healthy")
	deep := v.Mkdir(good, "deeper")
	var goodFiles []*Node
	for k := 0; k < 6; k++ {
		pt, holes := genPT(r, interestingSize(r, 30000))
		goodFiles = append(goodFiles, v.File([]*Node{good, deep, v.Root}[k%3], fmt.Sprintf("ok%d", k), pt, holes))
	}
	var bad []*Node
	var dmg []damaged
	fs := newMemFS()
	fs.record = false
	// directories with damaged IVs
	type ivd struct {
		n  *Node
		iv []byte
	}
	var ivs []ivd
	for _, l := range oddIVs {
		d := v.Mkdir(v.Root, fmt.Sprintf("iv%d", l))
		v.File(d, "inside", []byte("inside"), nil)
		iv := randBytes(r, l)
		if r.Intn(2) == 0 && l > 0 {
			copy(iv, d.IV)
		}
		ivs = append(ivs, ivd{d, iv})
		dmg = append(dmg, damaged{path: d.Path, dir: true, what: fmt.Sprintf("directory IV of %d bytes", l), valid: map[string]bool{}})
		dmg = append(dmg, damaged{path: path.Join(d.Path, "inside"), what: fmt.Sprintf("file under a directory IV of %d bytes", l)})
	}
	missing := v.Mkdir(v.Root, "noiv")
	dmg = append(dmg, damaged{path: missing.Path, dir: true, what: "directory without IV", valid: map[string]bool{}})
	// files of odd lengths
	odd := v.Mkdir(v.Root, "odd")
	for k, l := range oddLens {
		n := v.File(odd, fmt.Sprintf("len%d", l), nil, nil)
		n.CT = randBytes(r, l)
		if k%2 == i%2 && l >= 2 {
			n.CT[0], n.CT[1] = 0, 2
		}
		if r.Intn(4) == 0 && l > 18 {
			for j := 18; j < l; j++ {
				n.CT[j] = 0
			}
		}
		bad = append(bad, n)
		dmg = append(dmg, damaged{path: n.Path, ct: n.CT, what: fmt.Sprintf("file of %d odd bytes", l)})
	}
	// authentic files cut or extended inside a later block
	cut := v.Mkdir(v.Root, "cut")
	addCut := func(blocks, tail int) {
		pt := randBytes(r, blocks*refBS+refBS)
		n := v.File(cut, fmt.Sprintf("cut%d-%d", blocks, tail), pt, nil)
		switch r.Intn(3) {
		case 0, 1:
			n.CT = n.CT[: 18+blocks*4128+tail : 18+blocks*4128+tail]
		default:
			n.CT = cat(n.CT[:18+blocks*4128:18+blocks*4128], randBytes(r, tail))
		}
		bad = append(bad, n)
		dmg = append(dmg, damaged{path: n.Path, ct: n.CT, what: fmt.Sprintf("file of %d whole blocks and %d bytes of the next", blocks, tail)})
	}
	for tail := 0; tail < 50; tail++ {
		addCut(1+r.Intn(3), tail)
	}
	for _, b := range []int{30, 31, 32, 33, 40, 64} {
		addCut(b, 1+r.Intn(40))
	}
	names := v.Mkdir(v.Root, "names")
	okNames := []string{"valid"}
	for k := 0; k < 5; k++ {
		okNames = append(okNames, fmt.Sprintf("valid %d", k))
	}
	for _, n := range okNames {
		v.File(names, n, []byte(n), nil)
	}
	fs.Load(v)
	for _, x := range ivs {
		fs.put(path.Join(x.n.CPath, "gocryptfs.diriv"), x.iv, 0400, x.n.MTime)
	}
	delete(fs.ents, path.Join(missing.CPath, "gocryptfs.diriv"))

	// hostile names and attributes
	ne := fs.ents[names.CPath]
	addName := func(nm string) {
		ne.kids = append(ne.kids, &memInfo{name: nm, size: []int64{0, -1, math.MinInt64, math.MaxInt64, 17, 50, 1 << 40}[r.Intn(7)],
			mode: []os.FileMode{0644, os.ModeSymlink | 0777, os.ModeNamedPipe, os.ModeDevice, os.ModeSocket, 0}[r.Intn(6)], mtime: v.Root.MTime, isDir: r.Intn(4) == 0})
	}
	for _, l := range []int{0, 1, 15, 16, 17, 32, 240, 256, 1024, 2032, 2048, 2049, 2064, 2080, 4096, 8192, 65536, 100000} {
		addName(v.Cr.b64.EncodeToString(randBytes(r, l)))
		if l > 0 && l%16 == 0 && l <= 2048 {
			b := randBytes(r, l)
			b[l-1] = byte(r.Intn(40))
			addName(v.Cr.encryptRawName(b, names.IV))
		}
	}
	for _, s := range []string{"", " ", "=", "====", "\n", "A\nA", "\r\n\r\n", strings.Repeat("=", 300), strings.Repeat("A", 255), strings.Repeat("\xff", 255), "gocryptfs.longname.", "gocryptfs.longname.x.name", "é", ".", "..", "/", "a/b"} {
		addName(s)
	}
	for k := 0; k < 12; k++ {
		addName(v.Cr.encryptName(fmt.Sprintf("odd attributes %d", k), names.IV))
	}
	// the valid entries are before, between and behind the others
	r.Shuffle(len(ne.kids), func(a, b int) { ne.kids[a], ne.kids[b] = ne.kids[b], ne.kids[a] })
	nValid := map[string]bool{}
	for _, k := range ne.kids {
		nm := strings.NewReplacer("\r", "", "\n", "").Replace(k.Name())
		if n, ok := v.Cr.decryptName(nm, names.IV); ok {
			nValid[n] = true
		}
	}
	dmg = append(dmg, damaged{path: names.Path, dir: true, what: "hostile entry names", valid: nValid})
	for n := range nValid {
		dmg = append(dmg, damaged{path: path.Join(names.Path, n), what: "entry among hostile names", ct: fs.dataOf(path.Join(names.CPath, v.Cr.encryptName(n, names.IV)))})
	}

	h, err := handlers.DecryptHandler(v.RootPath, append([]byte{}, v.Password...), []int{1, 2, 8, 32}[r.Intn(4)], fs)
	if err != nil {
		c.Violate("open-failed", "a valid volume does not open: %v", err)
		return
	}
	c.Guard("requests on damaged objects", fs.Inflight, func() {
		healthy := func(view View, n *Node) {
			b, err := view.Read(n.Path)
			c.Count("healthy_checks", 1)
			if err != nil || !eqb(b, n.PT) {
				c.Violate("healthy-affected", "volume with damaged objects: reading healthy %q: %v %s", n.Path, err, diffDesc(b, n.PT))
			}
			l, err := view.List(n.Parent.Path)
			c.Count("healthy_checks", 1)
			if err != nil {
				c.Violate("healthy-affected", "volume with damaged objects: listing healthy %q: %v", n.Parent.Path, err)
			} else if n.Parent != v.Root {
				if d := listingDiff(l, n.Parent.Kids, true); d != "" {
					c.Violate("healthy-affected", "listing %q: %s", n.Parent.Path, d)
				}
			}
			e, err := view.Stat(n.Path)
			if err != nil || entryDiff(e, nodeEntry(n), false) != "" {
				c.Violate("healthy-affected", "stat of healthy %q: %v %s", n.Path, err, entryDiff(e, nodeEntry(n), false))
			}
		}
		var wg sync.WaitGroup
		stop := int32(0)
		wg.Add(1)
		gv := viewOf(0, h, 0)
		go func() {
			defer wg.Done()
			for k := 0; atomic.LoadInt32(&stop) == 0 && !c.Stopped(); k++ {
				healthy(gv, goodFiles[k%len(goodFiles)])
			}
		}()
		rv := viewOf(0, h, 0).(*rawView)
		defer rv.Close()
		for _, k := range r.Perm(len(dmg)) {
			d := dmg[k]
			if c.Stopped() {
				break
			}
			c.Current(map[string]string{"damage": d.what, "path": d.path, "cfg": cfgStr(v.Cfg)})
			c.Eval(d.what + cfgStr(v.Cfg))
			c.Count("damaged_requests", 3)
			l, lerr := rv.List(d.path)
			_, _ = rv.Stat(d.path)
			b, berr := c02RawRead(rv, d.path)
			if d.dir && lerr == nil {
				shown := map[string]bool{}
				for _, e := range l {
					shown[e.Name] = true
					if !d.valid[e.Name] {
						c.Violate("invalid-data-served", "%s: listing shows %q", d.what, e.Name)
					}
				}
				for _, n := range okNames {
					if d.valid[n] && !shown[n] {
						c.Violate("healthy-affected", "%s: the listing lacks the valid entry %q", d.what, n)
					}
				}
			}
			if d.ct != nil {
				pt, ok, lax := v.Cr.decryptFile(d.ct)
				if (!ok && !lax && berr == nil) || (!ok && len(b) > 0) {
					c.Violate("invalid-data-served", "%s: read returned %d bytes, error %v", d.what, len(b), berr)
				} else if ok && berr == nil && !eqb(b, pt) {
					c.Violate("invalid-data-served", "%s: %s", d.what, diffDesc(b, pt))
				}
			}
			if k%7 == 0 {
				healthy(rv, goodFiles[r.Intn(len(goodFiles))])
			}
			if k < 2 {
				c.Sample(fmt.Sprintf("%s: %q list: %d entries, %v; read: %d bytes, %v", d.what, d.path, len(l), lerr, len(b), berr))
			}
		}
		// objects inside valid names still work
		for _, n := range okNames {
			if b, err := rv.Read("/names/" + n); err != nil || string(b) != n {
				c.Violate("healthy-affected", "the valid file %q among hostile names: %v %q", n, err, b)
			}
			c.Count("valid_among_hostile", 1)
		}
		atomic.StoreInt32(&stop, 1)
		wg.Wait()
		gv.Close()
		fv := viewOf(1, h, 0)
		for _, n := range goodFiles {
			healthy(fv, n)
		}
		fv.Close()
	})
	_ = bad
}

func (m *MemFS) dataOf(p string) []byte {
	if e := m.ents[path.Clean(p)]; e != nil {
		return e.data
	}
	return nil
}

// c07Faults fails the k-th remote call of a script for every k; each request fails or
// is answered correctly, and the same script repeated afterwards is fully correct.
func c07Faults(c *Ctx, r *rand.Rand, i int) {
	v := newVolume(r, cfgAll[r.Intn(len(cfgAll))], "/enc")
	randTree(r, v, 5, 6, 9000)
	fs := newMemFS()
	fs.Load(v)
	script := func(view View, strict bool, tag string) {
		v.Walk(func(n *Node) {
			if c.Stopped() {
				return
			}
			e, err := view.Stat(n.Path)
			if err != nil && strict {
				c.Violate("not-recovered", "%s: stat %q: %v", tag, n.Path, err)
			} else if err == nil && entryDiff(e, nodeEntry(n), false) != "" {
				c.Violate("wrong-answer", "%s: stat %q: %s", tag, n.Path, entryDiff(e, nodeEntry(n), false))
			}
			if n.Dir {
				l, err := view.List(n.Path)
				if err != nil && strict {
					c.Violate("not-recovered", "%s: list %q: %v", tag, n.Path, err)
				} else if d := listingDiff(l, n.Kids, true); err == nil && d != "" {
					c.Violate("wrong-answer", "%s: list %q: %s", tag, n.Path, d)
				}
				return
			}
			b, err := view.Read(n.Path)
			if err != nil && strict {
				c.Violate("not-recovered", "%s: read %q: %v", tag, n.Path, err)
			} else if err == nil && !eqb(b, n.PT) {
				c.Violate("wrong-answer", "%s: read %q: %s", tag, n.Path, diffDesc(b, n.PT))
			}
		})
	}
	// count the calls of a clean run
	base := fs.total
	view, err := openView(0, v, fs, 2, 0)
	if err != nil {
		c.Violate("open-failed", "a valid volume does not open: %v", err)
		return
	}
	script(view, true, "clean run")
	view.Close()
	calls := fs.total - base
	for k := int64(1); k < calls && !c.Stopped(); k++ {
		for _, mode := range []int{0, 1, 2} {
			var cnt int64
			view, err := openView(0, v, fs, 2, 0)
			if err != nil {
				c.Violate("open-failed", "a valid volume does not open: %v", err)
				return
			}
			hit := "none"
			width := int64([]int{1, 3, 1}[mode])
			fs.Before = func(op, p string) error {
				n := atomic.AddInt64(&cnt, 1)
				if n >= k && n < k+width {
					hit = op + " " + p
					return injected(p)
				}
				return nil
			}
			if mode == 2 { // data together with the error
				fs.Before = nil
				fs.AfterRead = func(p string, b []byte) ([]byte, error) {
					if atomic.AddInt64(&cnt, 1) == k {
						hit = "partial read of " + p
						return b[:len(b)/2], injected(p)
					}
					return b, nil
				}
				fs.AfterList = func(p string, l []os.FileInfo) ([]os.FileInfo, error) {
					if atomic.AddInt64(&cnt, 1) == k {
						hit = "partial listing of " + p
						return l[:len(l)/2], injected(p)
					}
					return l, nil
				}
			}
			c.Guard("requests with a failing remote call", fs.Inflight, func() {
				tag := fmt.Sprintf("call %d of %d failing (mode %d)", k, calls, mode)
				script(view, false, tag)
				fs.Before, fs.AfterRead, fs.AfterList = nil, nil, nil
				script(view, true, tag+", after it")
			})
			c.Eval(fmt.Sprint(i, k, mode))
			c.Count("fault_points", 1)
			c.Count("fault_points_mode_"+fmt.Sprint(mode), 1)
			_ = hit
			view.Close()
		}
	}
}
