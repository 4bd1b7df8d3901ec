package main

import (
	"bytes"
	"fmt"
	"math/rand"
	"os"
	"path"
	"sync"
	"time"

	"github.com/flawedmatrix/gocryptsftp/handlers"
	"github.com/pkg/sftp"
	"golang.org/x/crypto/ssh"
)

func init() { register("C34", &Check{Run: runC34}) }

// plainTree is a remote tree that is not encrypted.
type plainTree struct {
	fs   *MemFS
	dirs []string
	all  []string
	kids map[string]map[string]string // directory -> name -> path
	data map[string][]byte            // files
	want map[string]Entry
}

func newPlainTree(r *rand.Rand, big int) *plainTree {
	t := &plainTree{fs: newMemFS(), kids: map[string]map[string]string{}, data: map[string][]byte{}, want: map[string]Entry{}}
	t.fs.record = false
	dir := func(p string) {
		m := os.FileMode(0500 | r.Intn(0300))
		mt := time.Unix(1000000000+int64(r.Intn(900000000)), 0)
		t.fs.mkdir(p, m, mt)
		t.dirs = append(t.dirs, p)
		t.all = append(t.all, p)
		t.kids[p] = map[string]string{}
		t.want[p] = Entry{path.Base(p), 0, permBits(m | os.ModeDir), mt.Unix()}
		if p != "/" && p != "/t" {
			t.kids[path.Dir(p)][path.Base(p)] = p
		}
	}
	dir("/t")
	for len(t.dirs) < 5+r.Intn(8) {
		p := path.Join(t.dirs[r.Intn(len(t.dirs))], randName(r))
		if t.want[p].Name == "" {
			dir(p)
		}
	}
	for i := 0; i < 30+big; i++ {
		d := t.dirs[r.Intn(len(t.dirs))]
		n := randName(r)
		if i >= 30 {
			d, n = t.dirs[1], fmt.Sprintf("entry%d", i)
		}
		p := path.Join(d, n)
		if t.want[p].Name != "" {
			continue
		}
		size := 0
		if i < 30 {
			size = []int{0, 1, 100, 32767, 32768, 32769, 65536, 100000, 1 + r.Intn(300000), 2100000}[r.Intn(10)]
		}
		b := randBytes(r, size)
		m := os.FileMode(r.Intn(512))
		mt := time.Unix(1000000000+int64(r.Intn(900000000)), 0)
		t.fs.put(p, b, m, mt)
		t.data[p] = b
		t.all = append(t.all, p)
		t.kids[d][n] = p
		t.want[p] = Entry{n, int64(size), permBits(m), mt.Unix()}
	}
	return t
}

// check makes one request and says what is wrong with an answer that is not an error.
func (t *plainTree) check(v View, r *rand.Rand) (what, wrong string, missing bool, err error) {
	p := t.all[r.Intn(len(t.all))]
	if r.Intn(8) == 0 {
		p = path.Join(p, "nothing"+randName(r))
	}
	op := r.Intn(3)
	if op == 1 && r.Intn(4) > 0 {
		p = t.dirs[r.Intn(len(t.dirs))]
	}
	w, ok := t.want[p]
	what = fmt.Sprintf("%s %q via %s", []string{"read", "list", "stat"}[op], p, v.Kind())
	switch op {
	case 0:
		var b []byte
		b, err = v.Read(p)
		if data, isFile := t.data[p]; !isFile {
			missing = true
		} else if err == nil && !bytes.Equal(b, data) {
			wrong = diffDesc(b, data)
		}
	case 1:
		var l []Entry
		l, err = v.List(p)
		kids, isDir := t.kids[p]
		if !isDir {
			missing = true
			break
		}
		if err != nil {
			break
		}
		seen := map[string]bool{}
		for _, e := range l {
			k, ok := kids[e.Name]
			if !ok || seen[e.Name] {
				wrong = fmt.Sprintf("shows %q (again: %v)", e.Name, seen[e.Name])
			} else if d := entryDiff(e, t.want[k], true); d != "" {
				wrong = fmt.Sprintf("%q: %s", e.Name, d)
			}
			seen[e.Name] = true
		}
		if wrong == "" && len(seen) != len(kids) {
			wrong = fmt.Sprintf("shows %d of %d entries", len(seen), len(kids))
		}
	case 2:
		var e Entry
		e, err = v.Stat(p)
		if !ok {
			missing = true
		} else if err == nil {
			wrong = entryDiff(e, w, false)
		}
	}
	if missing && err == nil {
		wrong = "succeeds"
	}
	return
}

func runC34(c *Ctx) {
	c.Rule("random plain trees at a recording SSH remote, served by the pass-through handlers to several sessions at once (raw, library and direct), with replies delayed and answered out of turn, single packets refused or connections cut at random; " +
		"every answer is compared with the tree; a case is one request")
	c.Assume("read-only behaviour of these handlers is C06's")
	for e := 0; e < c.N(60, 1000) && !c.Stopped(); e++ {
		c34Episode(c, c.Rand("through", e), e)
	}
	c.Need("requests", 5000)
	c.Need("requests_for_missing_objects", 200)
	c.Need("refused", 100)
	c.Need("cuts", 5)
	c.Need("large_listings", 2)
}

func c34Episode(c *Ctx, r *rand.Rand, e int) {
	big := 0
	if e%5 == 0 || e%12 == 8 {
		big = 100 + r.Intn(2000)
		c.Count("large_listings", 1)
	}
	t := newPlainTree(r, big)
	s := newSshd(t.fs, newSigner(r))
	defer s.Close()
	failRate := []int{0, 12, 60}[e%3]
	cutAfter := -1
	if e%6 == 5 {
		cutAfter = r.Intn(400)
	}
	// the connection may also end in the middle of a listing or of a file
	cutType, cutNth := byte(0), 0
	if e%6 == 2 {
		cutType = []byte{fxRead, fxReaddir}[e/6%2]
		cutNth = 1 + r.Intn(60)
		failRate = 0
	}
	var mu sync.Mutex
	var cut bool
	refused, packets := int64(0), 0
	pr := rand.New(rand.NewSource(r.Int63()))
	s.OnPacket = func(cn *SConn, n int, p SPkt) Action {
		mu.Lock()
		defer mu.Unlock()
		a := Action{}
		if pr.Intn(5) == 0 {
			a.Delay = time.Duration(pr.Intn(1500)) * time.Microsecond
		}
		if p.Type == fxInit {
			return a
		}
		packets++
		if failRate > 0 && p.Type != fxClose && pr.Intn(failRate) == 0 {
			refused++
			a.Fail = []uint32{2, 3, 4, 5, 8}[pr.Intn(5)]
		}
		if p.Type == cutType && !cut {
			cutNth--
		}
		if !cut && (cutAfter >= 0 && packets > cutAfter || cutType != 0 && cutNth == 0) {
			cut = true
			a.Kill = 1 + pr.Intn(3)
		}
		return a
	}
	sc, err := ssh.Dial("tcp", s.Addr, s.clientConfig(newSigner(r)))
	must(err)
	defer sc.Close()
	cl, err := sftp.NewClient(sc)
	must(err)
	h := handlers.ProxyHandler(cl)
	if !c.Guard("pass-through requests", t.fs.Inflight, func() {
		var wg sync.WaitGroup
		for g := 0; g < 1+r.Intn(6); g++ {
			rg := rand.New(rand.NewSource(r.Int63()))
			v := viewOf([]int{0, 1, 3}[rg.Intn(3)], h, 32768)
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer v.Close()
				for k := 0; k < 60 && !c.Stopped(); k++ {
					what, wrong, missing, err := t.check(v, rg)
					c.Eval(fmt.Sprint(e, what))
					c.Count("requests", 1)
					if missing {
						c.Count("requests_for_missing_objects", 1)
					}
					if wrong != "" {
						c.Violate("not-faithful", "%s (remote refuses 1/%d): %s", what, failRate, wrong)
					}
					if err != nil && !missing && failRate == 0 && cutAfter < 0 && cutType == 0 {
						c.Violate("failed", "%s: %v although the remote works", what, err)
					}
				}
			}()
		}
		wg.Wait()
		mu.Lock()
		failRate, cutAfter, cutType = 0, -1, 0
		mu.Unlock()
	}) {
		return
	}
	mu.Lock()
	c.Count("refused", refused)
	gone := cut
	if cut {
		c.Count("cuts", 1)
	}
	mu.Unlock()
	if gone {
		return
	}
	// nothing stays open at the remote
	left := 0
	for k := 0; k < 200; k++ {
		left = 0
		for _, cn := range s.Conns() {
			cn.mu.Lock()
			left += len(cn.open)
			cn.mu.Unlock()
		}
		if left == 0 {
			break
		}
		time.Sleep(10 * time.Millisecond)
	}
	if left > 0 {
		c.Violate("handles-left", "%d handles stay open at the remote after all sessions have ended", left)
	}
	if e%20 == 0 {
		c.Sample(fmt.Sprintf("episode %d: %d objects, %d packets at the remote, %d refused", e, len(t.all), packets, refused))
	}
}
