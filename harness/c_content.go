package main

import (
	"bytes"
	"encoding/base64"
	"encoding/hex"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"strings"
	"sync"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/handlers"
)

func init() {
	register("C01", &Check{Run: runC01})
	register("C02", &Check{Run: runC02})
}

func cfgStr(c VolCfg) string {
	return fmt.Sprintf("hkdf=%v raw64=%v longnames=%v siv=%v", c.HKDF, c.Raw64, c.LongNames, c.SIV)
}

var fixedSizes = []int{0, 1, 2, 15, 16, 17, 31, 32, 33, 4063, 4064, 4095, 4096, 4097, 4128, 8191, 8192, 8193,
	32767, 32768, 32769, 126975, 126976, 126977, 131071, 131072, 131073, 135167, 135168, 135169, 139264, 262144}

// runC01: every read equals the slice of the stored plaintext.
func runC01(c *Ctx) {
	c.Rule("volumes over all 16 feature combinations, files of boundary and random sizes with holes; each is read whole and at random offsets, " +
		"through a raw SFTP session, the pkg/sftp client and FileTree, sequentially, interleaved over many open handles and concurrently; " +
		"a case is (volume kind, size, texture, way of reading, offset); non-trivial if the file is not empty")
	c.Assume("the volume builder's independent gocryptfs implementation is the oracle", "the memory remote returns exactly the stored bytes")
	rounds := c.N(6, 40)
	big := c.N(3<<20, 24<<20)
	for round := 0; round < rounds && !c.Stopped(); round++ {
		for ci, cfg := range cfgAll {
			if c.Stopped() {
				return
			}
			r := c.Rand("vol", round, ci)
			v := newVolume(r, cfg, rootPaths[r.Intn(len(rootPaths))])
			dir := v.Mkdir(v.Root, uniqueName(r, v.Root))
			where := []*Node{v.Root, dir}
			var files []*Node
			add := func(n int) {
				pt, holes := genPT(r, n)
				d := where[r.Intn(2)]
				files = append(files, v.File(d, uniqueName(r, d), pt, holes))
			}
			for k := 0; k < 8; k++ {
				add(fixedSizes[(ci*8+k+round*3)%len(fixedSizes)])
			}
			for k := 0; k < 6; k++ {
				add(interestingSize(r, 400000))
			}
			if ci%4 == round%4 {
				add(big + r.Intn(10000))
			}
			// a file that holds only its header is empty, too
			ho := v.File(v.Root, uniqueName(r, v.Root), nil, nil)
			ho.CT = cat([]byte{0, 2}, ho.ID)
			files = append(files, ho)
			fs := newMemFS()
			fs.record = false
			fs.Load(v)
			fs.Shuffle(r)
			c01Volume(c, r, v, fs, files)
		}
	}
	for i, blocks := range []int{4097, 16385, 65537 + 2} {
		if !c.Stopped() {
			c01Large(c, c.Rand("large", i), i, blocks)
		}
	}
	c.Need("large_files", 3)
	c.Need("large_files_over_ssh", 1)
	c.Need("whole_reads", 300)
	c.Need("range_reads", 800)
	c.Need("concurrent_reads", 300)
	c.Need("bytes_compared", 10<<20)
}

// c01Large: a file with more blocks than fit in 12, 14 or 16 bits, most of them holes.
func c01Large(c *Ctx, r *rand.Rand, i, blocks int) {
	v := newVolume(r, cfgAll[r.Intn(len(cfgAll))], "/enc")
	n := (blocks-1)*refBS + 1 + r.Intn(refBS)
	pt := make([]byte, n)
	holes := map[int]bool{}
	for b := 0; b < blocks; b++ {
		holes[b] = true
	}
	for _, b := range []int{0, 1, 31, 32, 33, 255, 256, 257, 4095, 4096, 4097, 16383, 16384, 32767, 32768, 65535, 65536, 65537, blocks - 2, blocks - 1, r.Intn(blocks), r.Intn(blocks)} {
		if b < blocks {
			delete(holes, b)
			r.Read(pt[b*refBS : min((b+1)*refBS, n)])
		}
	}
	f := v.File(v.Root, uniqueName(r, v.Root), pt, holes)
	fs := newMemFS()
	fs.record = false
	fs.Load(v)
	c.Guard("reading a large file", fs.Inflight, func() {
		var acc filetree.FSAccessor = fs
		if i == 1 { // through the real backend
			s := newSshd(fs, newSigner(r))
			defer s.Close()
			acc = newProvider(s, r)
			c.Count("large_files_over_ssh", 1)
		}
		view, err := openView(i%3, v, acc, 4, 1<<18)
		if err != nil {
			c.Violate("read-failed", "%v", err)
			return
		}
		defer view.Close()
		got, err := view.Read(f.Path)
		c.Eval(fmt.Sprint("large", blocks, v.Cfg))
		c.Count("large_files", 1)
		c.Count("bytes_compared", int64(n))
		if err != nil {
			c.Violate("read-failed", "%s: reading a file of %d bytes via %s: %v", cfgStr(v.Cfg), n, view.Kind(), err)
		} else if !eqb(got, pt) {
			c.Violate("wrong-content", "%s: a file of %d bytes via %s: %s", cfgStr(v.Cfg), n, view.Kind(), diffDesc(got, pt))
		}
		if e, err := view.Stat(f.Path); err == nil && e.Size != int64(n) {
			c.Violate("wrong-content", "a file of %d bytes is reported with %d bytes", n, e.Size)
		}
	})
}

func c01Volume(c *Ctx, r *rand.Rand, v *Volume, fs *MemFS, files []*Node) {
	whole := func(view View, n *Node) {
		got, err := view.Read(n.Path)
		key := ""
		if len(n.PT) > 0 {
			key = fmt.Sprint(v.Cfg, len(n.PT), view.Kind(), n.PT[0])
		}
		c.Eval(key)
		c.Count("whole_reads", 1)
		c.Count("bytes_compared", int64(len(n.PT)))
		if err != nil {
			c.Violate("read-failed", "%s: reading %q (%d bytes, stored as %d) via %s: %v", cfgStr(v.Cfg), n.Path, len(n.PT), len(n.CT), view.Kind(), err)
		} else if !eqb(got, n.PT) {
			c.Violate("wrong-content", "%s: %q (%d bytes) via %s: %s", cfgStr(v.Cfg), n.Path, len(n.PT), view.Kind(), diffDesc(got, n.PT))
		}
	}
	ok := c.Guard("reading files", fs.Inflight, func() {
		chunks := []uint32{32768, 1 << 20, 4096, 5000, 32767, 1000}
		for kind := 0; kind < 4; kind++ {
			ch := chunks[r.Intn(len(chunks))]
			if kind == 0 && ch < 4096 && len(files[0].PT) > 1<<20 {
				ch = 32768
			}
			view, err := openView(kind, v, fs, []int{1, 2, 8, 32}[r.Intn(4)], ch)
			if err != nil {
				c.Violate("open-failed", "%s: a valid volume does not open: %v", cfgStr(v.Cfg), err)
				return
			}
			order := r.Perm(len(files))
			for _, i := range order {
				whole(view, files[i])
			}
			for k := 0; k < 4; k++ { // repeated reads
				whole(view, files[r.Intn(len(files))])
			}
			view.Close()
		}

		// random access, all handles open at once
		h, err := handlers.DecryptHandler(v.RootPath, append([]byte{}, v.Password...), 8, fs)
		if err != nil {
			c.Violate("open-failed", "%s: a valid volume does not open: %v", cfgStr(v.Cfg), err)
			return
		}
		rc, stop := rawSession(h)
		defer stop()
		type oh struct {
			n *Node
			h string
		}
		var hs []oh
		for _, i := range r.Perm(len(files)) {
			hd, err := rc.open(files[i].Path, 1)
			if err != nil {
				c.Violate("read-failed", "%s: opening %q (%d bytes): %v", cfgStr(v.Cfg), files[i].Path, len(files[i].PT), err)
				continue
			}
			hs = append(hs, oh{files[i], hd})
		}
		for k := 0; k < 80 && len(hs) > 0 && !c.Stopped(); k++ {
			o := hs[r.Intn(len(hs))]
			size := len(o.n.PT)
			off := 0
			switch r.Intn(5) {
			case 0:
				off = size - r.Intn(3)
			case 1:
				off = size + r.Intn(5000)
			case 2:
				off = refBS*r.Intn(size/refBS+2) + r.Intn(3) - 1
			default:
				off = r.Intn(size + 1)
			}
			if off < 0 {
				off = 0
			}
			n := []int{1, 2, 16, 4096, 32768, 40000, 1 + r.Intn(32768)}[r.Intn(7)]
			c.Eval(fmt.Sprint(v.Cfg, size, off, n))
			c.Count("range_reads", 1)
			got, eof, err := rc.readAt(o.h, uint64(off), uint32(n))
			end := min(off+n, size)
			switch {
			case err != nil:
				c.Violate("read-failed", "%s: read %q (%d bytes) at %d+%d: %v", cfgStr(v.Cfg), o.n.Path, size, off, n, err)
			case off >= size:
				if !eof && len(got) > 0 {
					c.Violate("wrong-content", "%s: read past the end (%d of %d) gave %d bytes", cfgStr(v.Cfg), off, size, len(got))
				}
			case eof:
				c.Violate("wrong-content", "%s: EOF at %d of %d", cfgStr(v.Cfg), off, size)
			default:
				// a server may return less than asked, never other bytes
				if len(got) == 0 || len(got) > end-off || !eqb(got, o.n.PT[off:off+len(got)]) {
					c.Violate("wrong-content", "%s: read %q at %d+%d of %d: %s", cfgStr(v.Cfg), o.n.Path, off, n, size, diffDesc(got, o.n.PT[off:end]))
				}
				if off+n <= size && n <= 32768 && len(got) != n {
					c.Violate("short-read", "%s: read of %d bytes at %d of %d gave %d", cfgStr(v.Cfg), n, off, size, len(got))
				}
			}
		}

		// concurrent reads through one handler: each goroutine has its own session, all
		// handles stay open until all reads are done
		var wg sync.WaitGroup
		for g := 0; g < 6; g++ {
			rg := rand.New(rand.NewSource(r.Int63()))
			view := viewOf(1, h, 0).(*libView)
			wg.Add(1)
			go func() {
				defer wg.Done()
				defer view.Close()
				for k := 0; k < 8 && !c.Stopped(); k++ {
					n := files[rg.Intn(len(files))]
					f, err := view.c.Open(n.Path)
					if err != nil {
						c.Violate("read-failed", "%s: concurrent open of %q (%d bytes): %v", cfgStr(v.Cfg), n.Path, len(n.PT), err)
						continue
					}
					// seek and sequential io.Reader reads
					start := 0
					if len(n.PT) > 0 && rg.Intn(2) == 0 {
						start = rg.Intn(len(n.PT))
						_, _ = f.Seek(int64(start), io.SeekStart)
					}
					got, err := io.ReadAll(f)
					c.Count("concurrent_reads", 1)
					c.Eval(fmt.Sprint("conc", v.Cfg, len(n.PT), start))
					if err != nil {
						c.Violate("read-failed", "%s: concurrent read of %q: %v", cfgStr(v.Cfg), n.Path, err)
					} else if !eqb(got, n.PT[start:]) {
						c.Violate("wrong-content", "%s: concurrent read of %q from %d: %s", cfgStr(v.Cfg), n.Path, start, diffDesc(got, n.PT[start:]))
					}
					_ = f.Close()
				}
			}()
		}
		wg.Wait()

		// buffers handed out earlier must not change when other files are read later
		tv, err := openView(2, v, fs, 4, 0)
		if err != nil {
			return
		}
		held := make([][]byte, len(files))
		for i, n := range files {
			held[i], _ = tv.Read(n.Path)
		}
		for _, n := range files {
			_, _ = tv.Read(n.Path)
		}
		for i, n := range files {
			c.Eval(fmt.Sprint("held", v.Cfg, len(n.PT)))
			if !eqb(held[i], n.PT) {
				c.Violate("buffer-reused", "%s: the bytes returned for %q (%d bytes) changed after later reads or were wrong: %s", cfgStr(v.Cfg), n.Path, len(n.PT), diffDesc(held[i], n.PT))
			}
		}
	})
	_ = ok
	c.Sample(fmt.Sprintf("%s root %s: %d files, sizes %v", cfgStr(v.Cfg), v.RootPath, len(files), func() (l []int) {
		for _, f := range files {
			l = append(l, len(f.PT))
		}
		return
	}()))
}

// mutateCT applies one hostile change; ct is not modified in place.
func mutateCT(r *rand.Rand, n *Node, other *Node, cr *RefCrypto) (out []byte, what string) {
	ct := append([]byte{}, n.CT...)
	body := func(i int) (lo, hi int) { // block i
		lo = refHdrLen + i*refCBS
		return lo, min(lo+refCBS, len(ct))
	}
	nb := 0
	if len(ct) > refHdrLen {
		nb = (len(ct) - refHdrLen + refCBS - 1) / refCBS
	}
	switch r.Intn(20) {
	case 0:
		if len(ct) > 0 {
			i := r.Intn(len(ct))
			ct[i] ^= 1 << uint(r.Intn(8))
			what = fmt.Sprintf("bit flip at %d of %d", i, len(ct))
		}
	case 1: // flip inside a nonce
		if nb > 0 {
			b := r.Intn(nb)
			lo, _ := body(b)
			ct[lo+r.Intn(min(16, len(ct)-lo))] ^= byte(1 + r.Intn(255))
			what = fmt.Sprintf("nonce of block %d changed", b)
		}
	case 2: // flip inside the tag of a block
		if nb > 0 {
			b := r.Intn(nb)
			_, hi := body(b)
			ct[hi-1-r.Intn(min(16, hi-refHdrLen))] ^= byte(1 + r.Intn(255))
			what = fmt.Sprintf("tag of block %d changed", b)
		}
	case 3: // truncate anywhere
		k := r.Intn(len(ct) + 1)
		ct = ct[:k]
		what = fmt.Sprintf("truncated to %d", k)
	case 4: // truncate just after a block or inside its first bytes
		if nb > 0 {
			lo, _ := body(r.Intn(nb))
			k := lo + []int{0, 1, 15, 16, 17, 31, 32, 33}[r.Intn(8)]
			if k < len(ct) {
				ct = ct[:k]
				what = fmt.Sprintf("truncated to %d", k)
			}
		}
	case 5: // extend
		k := []int{1, 16, 31, 32, 33, 48, refCBS, refCBS + 1}[r.Intn(8)]
		add := randBytes(r, k)
		if r.Intn(2) == 0 {
			add = make([]byte, k)
		}
		ct = append(ct, add...)
		what = fmt.Sprintf("extended by %d", k)
	case 6: // swap two blocks
		if nb > 2 {
			a, b := r.Intn(nb-1), r.Intn(nb-1)
			la, ha := body(a)
			lb, hb := body(b)
			x := append([]byte{}, ct[la:ha]...)
			copy(ct[la:ha], ct[lb:hb])
			copy(ct[lb:hb], x)
			what = fmt.Sprintf("blocks %d and %d swapped", a, b)
		}
	case 7: // drop a block
		if nb > 1 {
			b := r.Intn(nb)
			lo, hi := body(b)
			ct = append(ct[:lo], ct[hi:]...)
			what = fmt.Sprintf("block %d of %d dropped", b, nb)
		}
	case 8: // duplicate a block
		if nb > 1 {
			b := r.Intn(nb - 1)
			lo, hi := body(b)
			ct = cat(ct[:hi], ct[lo:hi], ct[hi:])
			what = fmt.Sprintf("block %d duplicated", b)
		}
	case 9: // same-position block of another file
		if nb > 0 && other != nil && len(other.CT) > refHdrLen {
			b := r.Intn(nb)
			lo, hi := body(b)
			if hi <= len(other.CT) {
				copy(ct[lo:hi], other.CT[lo:hi])
				what = fmt.Sprintf("block %d spliced in from another file", b)
			}
		}
	case 10: // header of another file
		if other != nil && len(other.CT) > refHdrLen && len(ct) > refHdrLen {
			copy(ct, other.CT[:refHdrLen])
			what = "header of another file"
		}
	case 11: // body of another file
		if other != nil && len(other.CT) > refHdrLen && len(ct) > refHdrLen {
			ct = cat(ct[:refHdrLen], other.CT[refHdrLen:])
			what = "body of another file"
		}
	case 12: // a full block zeroed (a hole, legitimate)
		if nb > 1 {
			b := r.Intn(nb - 1)
			lo, hi := body(b)
			for i := lo; i < hi; i++ {
				ct[i] = 0
			}
			what = fmt.Sprintf("block %d zeroed", b)
		}
	case 13: // last, short block zeroed
		if nb > 0 {
			lo, hi := body(nb - 1)
			for i := lo; i < hi; i++ {
				ct[i] = 0
			}
			what = fmt.Sprintf("last block zeroed (%d bytes)", hi-lo)
		}
	case 14: // zero nonce only
		if nb > 0 {
			lo, hi := body(r.Intn(nb))
			for i := lo; i < min(lo+16, hi); i++ {
				ct[i] = 0
			}
			what = "nonce zeroed"
		}
	case 15: // header version / zero id
		if len(ct) > refHdrLen {
			switch r.Intn(5) {
			case 3: // nothing but zeros after the version, or nothing but zeros
				if nb > 1 {
					ct = append(append([]byte{}, ct[:2]...), make([]byte, 16+(1+r.Intn(nb-1))*refCBS)...)
					if what = "file id zeroed, all blocks holes"; r.Intn(3) == 0 {
						ct[0], ct[1] = 0, 0
						what = "all zeros"
					}
				}
			case 4: // sealed for the all-zero id
				if nb > 0 {
					ct = append([]byte{0, 2}, make([]byte, 16)...)
					for b := 0; b < nb; b++ {
						ct = append(ct, cr.sealBlock(randBytes(r, 16), randBytes(r, refBS), uint64(b), make([]byte, 16))...)
					}
					what = "all blocks for the all-zero file id"
				}
			case 0:
				ct[r.Intn(2)] ^= byte(1 + r.Intn(255))
				what = "header version changed"
			case 1:
				copy(ct[2:], make([]byte, 16))
				what = "file id zeroed"
			case 2:
				ct[2+r.Intn(16)] ^= byte(1 + r.Intn(255))
				what = "file id changed"
			}
		}
	case 16: // a block re-sealed by somebody without the right key
		if nb > 0 {
			b := r.Intn(nb)
			lo, hi := body(b)
			evil := newRefCrypto(randBytes(r, 32), cr.cfg)
			if hi-lo > 32 {
				copy(ct[lo:hi], evil.sealBlock(randBytes(r, 16), make([]byte, hi-lo-32), uint64(b), n.ID))
				what = fmt.Sprintf("block %d sealed under another key", b)
			}
		}
	case 17: // sealed authentically but for another position or file id or mode
		if nb > 0 {
			b := r.Intn(nb)
			lo, hi := body(b)
			if hi-lo > 32 {
				id, no := n.ID, uint64(b)
				switch r.Intn(3) {
				case 0:
					no = uint64(b + 1 + r.Intn(4))
				case 1:
					id = randBytes(r, 16)
				case 2:
					no = uint64(b) << 8
					if b == 0 {
						no = 1 << 32
					}
				}
				copy(ct[lo:hi], cr.sealBlock(randBytes(r, 16), randBytes(r, hi-lo-32), no, id))
				what = fmt.Sprintf("block %d holds the block sealed for number %d", b, no)
			}
		}
	case 18: // keep an authentic prefix followed by garbage in a late block
		if nb > 2 {
			b := nb - 1 - r.Intn(2)
			lo, hi := body(b)
			copy(ct[lo:hi], randBytes(r, hi-lo))
			what = fmt.Sprintf("block %d of %d is garbage", b, nb)
		}
	case 19:
		ct = randBytes(r, []int{0, 1, 17, 18, 19, 33, 34, 49, 50, 51, 52, 100, 4146, 5000}[r.Intn(14)])
		if r.Intn(2) == 0 && len(ct) >= 18 {
			ct[0], ct[1] = 0, 2
		}
		what = fmt.Sprintf("replaced by %d random bytes", len(ct))
	}
	return ct, what
}

// leakedContent reports whether a text holds one of the file's 12-byte pieces, plain or
// in a usual encoding.
func leakedContent(text string, pt []byte) string {
	for i := 0; i+12 <= len(pt) && i <= 5*refBS; i += refBS {
		p := pt[i : i+12]
		if eqb(p, make([]byte, 12)) {
			continue
		}
		for how, x := range map[string]string{"plain": string(p), "hex": hex.EncodeToString(p), "decimal": strings.Trim(fmt.Sprint(p), "[]"),
			"quoted": strings.Trim(fmt.Sprintf("%q", p), "\""), "base64": base64.StdEncoding.EncodeToString(p), "base64url": base64.URLEncoding.EncodeToString(p)} {
			if len(x) >= 12 && strings.Contains(text, x) {
				return how
			}
		}
	}
	return ""
}

// runC02: the reply to a read of tampered ciphertext is judged by the reference decryption.
func runC02(c *Ctx) {
	c.Rule("files of 0..80 blocks in volumes of all feature combinations with one to three hostile changes each (bit flips, truncation, extension, reordering, splicing, resealing, " +
		"zeroing, header swaps); a case is (volume kind, block count, change); non-trivial if the change altered the bytes")
	c.Assume("AES-GCM and AES-SIV forgeries do not happen by chance")
	per := c.N(900, 8000)
	for ci, cfg := range cfgAll {
		r := c.Rand("v", ci)
		v := newVolume(r, cfg, "/enc")
		var files []*Node
		for i := 0; i < per; i++ {
			n := 0
			switch r.Intn(6) {
			case 0:
				n = refBS*(33+r.Intn(8)) + r.Intn(3) - 1
			case 1:
				n = refBS*(1+r.Intn(6)) + r.Intn(3) - 1
			case 2:
				n = r.Intn(200)
			default:
				n = r.Intn(40000)
			}
			pt, holes := genPT(r, n)
			files = append(files, v.File(v.Root, fmt.Sprintf("f%d", i), pt, holes))
		}
		fs := newMemFS()
		fs.record = false
		fs.Load(v)
		type cse struct {
			n    *Node
			ct   []byte
			what string
			lie  bool
		}
		var cases []cse
		for _, n := range files {
			what := ""
			ct := n.CT
			for k := 0; k < 1+r.Intn(2); k++ {
				m := *n
				m.CT = ct
				x, w := mutateCT(r, &m, files[r.Intn(len(files))], v.Cr)
				if w != "" {
					ct = x
					what += w + "; "
				}
			}
			fs.put(n.CPath, ct, n.Mode, n.MTime)
			cases = append(cases, cse{n, ct, what, false})
		}
		// The remote lies about the sizes of some files in its listings.
		lies := map[string]int64{}
		for k := range cases {
			if r.Intn(3) == 0 {
				l := int64(len(cases[k].ct))
				lies[path.Base(cases[k].n.CPath)] = []int64{0, 1, 17, 18, 50, l - 1, l + 1, l / 2, l * 2, r.Int63n(l + 2), -1, 1 << 40, int64(^uint64(0) >> 1)}[r.Intn(13)]
				cases[k].lie = true
			}
		}
		lie := func(i os.FileInfo) os.FileInfo {
			if s, found := lies[i.Name()]; found {
				return &memInfo{name: i.Name(), size: s, mode: i.Mode(), mtime: i.ModTime()}
			}
			return i
		}
		fs.AfterList = func(p string, l []os.FileInfo) ([]os.FileInfo, error) {
			out := make([]os.FileInfo, len(l))
			for k := range l {
				out[k] = lie(l[k])
			}
			return out, nil
		}
		ok := c.Guard("reading tampered files", fs.Inflight, func() {
			views := []View{}
			for kind := 0; kind < 3; kind++ {
				view, err := openView(kind, v, fs, 8, 0)
				if err != nil {
					c.Violate("open-failed", "volume does not open: %v", err)
					return
				}
				defer view.Close()
				views = append(views, view)
			}
			for i, cs := range cases {
				if c.Stopped() {
					return
				}
				c.Current(map[string]interface{}{"cfg": cfgStr(cfg), "change": cs.what, "len": len(cs.ct)})
				pt, good, lax := v.Cr.decryptFile(cs.ct)
				key := ""
				if !eqb(cs.ct, cs.n.CT) {
					key = fmt.Sprint(cfg, len(cs.ct), cs.what)
					c.Count("changed_files", 1)
				}
				view := views[i%3]
				c.Eval(key)
				var got []byte
				var err error
				if rv, isRaw := view.(*rawView); isRaw {
					// every byte that is served counts, also before a later error
					got, err = c02RawRead(rv, cs.n.Path)
				} else if got, err = view.Read(cs.n.Path); err != nil && view.Kind() == "filetree" {
					got = nil
				}
				if err != nil {
					c.Count("error_texts", 1)
					if x := leakedContent(err.Error(), cs.n.PT); x != "" {
						c.Violate("served-in-error", "%s: %s: the error returned via %s holds content of the file (%s): %s", cfgStr(cfg), cs.what, view.Kind(), x, clip(err.Error(), 300))
					}
				}
				// Whole blocks from the start would be all of the file if the remote's size were true.
				if cs.lie {
					c.Count("size_lies", 1)
				}
				switch {
				case cs.lie && err == nil && (good && len(got)%refBS == 0 && bytes.HasPrefix(pt, got) || len(got) == 0):
					c.Count("size_lies_prefix", 1)
				case good:
					c.Count("authentic_after_change", 1)
					if err == nil && !eqb(got, pt) {
						c.Violate("wrong-content", "%s: %s: %s via %s", cfgStr(cfg), cs.what, diffDesc(got, pt), view.Kind())
					}
					if err != nil && key == "" {
						c.Count("unchanged_rejected", 1)
					}
				case lax:
					if len(got) > 0 {
						c.Violate("forged-content", "%s: %s: %d bytes served via %s", cfgStr(cfg), cs.what, len(got), view.Kind())
					}
				default:
					c.Count("must_reject", 1)
					if err == nil || len(got) > 0 {
						c.Violate("tampered-served", "%s: %s (%d bytes of ciphertext): read via %s returned %d bytes, error %v", cfgStr(cfg), cs.what, len(cs.ct), view.Kind(), len(got), err)
					}
				}
				if i < 1 {
					c.Sample(fmt.Sprintf("%s: %d bytes, %s -> must reject: %v", cfgStr(cfg), len(cs.n.PT), cs.what, !good && !lax))
				}
			}
		})
		if !ok || c.Stopped() {
			return
		}
	}
	c.Need("must_reject", 1500)
	c.Need("size_lies", 1000)
	c.Need("authentic_after_change", 50)
}

// c02RawRead returns everything served, even if a later read fails.
func c02RawRead(v *rawView, p string) ([]byte, error) {
	h, err := v.c.open(p, 1)
	if err != nil {
		return nil, err
	}
	defer v.c.close(h)
	var out []byte
	for {
		b, eof, err := v.c.readAt(h, uint64(len(out)), 32768)
		if err != nil {
			return out, err
		}
		if eof || len(b) == 0 {
			return out, nil
		}
		out = append(out, b...)
	}
}
