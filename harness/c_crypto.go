package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"math/big"
	"math/rand"
	"os"
	"os/exec"
	"strings"
	"sync"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/nametransform"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/siv_aead"
)

func init() {
	register("C24", &Check{Run: runC24})
	register("C25", &Check{Run: runC25})
	register("C26", &Check{Run: runC26})
	register("C29", &Check{Run: runC29})
	subcommands["nonces"] = func(args []string) {
		// a fresh process's nonces and ids, one per line
		for _, siv := range []bool{false, true} {
			ce, _ := newCE(make([]byte, 32), VolCfg{HKDF: true, SIV: siv})
			for i := 0; i < 40; i++ {
				blocks := make([][]byte, 40)
				for k := range blocks {
					blocks[k] = []byte{1}
				}
				ct := ce.EncryptBlocks(blocks, 0, bytes.Repeat([]byte{7}, 16))
				for len(ct) > 0 {
					fmt.Println(hex.EncodeToString(ct[:16]))
					ct = ct[33:]
				}
			}
		}
		for i := 0; i < 200; i++ {
			fmt.Println(hex.EncodeToString(contentenc.RandomHeader().ID))
			fmt.Println(hex.EncodeToString(cryptocore.RandBytes(16)))
		}
	}
}

func newCE(key []byte, cfg VolCfg) (*contentenc.ContentEnc, *cryptocore.CryptoCore) {
	be := cryptocore.BackendGoGCM
	if cfg.SIV {
		be = cryptocore.BackendAESSIV
	}
	cc := cryptocore.New(append([]byte{}, key...), be, contentenc.DefaultIVBits, cfg.HKDF, false)
	return contentenc.New(cc, contentenc.DefaultBS, false), cc
}

var contentCfgs = []VolCfg{{HKDF: true}, {}, {HKDF: true, SIV: true}, {SIV: true}}

// nonceSet collects nonces over the whole run.
type nonceSet struct {
	mu sync.Mutex
	m  map[string]string
}

func (s *nonceSet) add(c *Ctx, n []byte, where string) {
	s.mu.Lock()
	prev, dup := s.m[string(n)]
	s.m[string(n)] = where
	s.mu.Unlock()
	if dup {
		c.Violate("nonce-reuse", "nonce %x of %s was already used by %s", n, where, prev)
	}
}

func runC24(c *Ctx) {
	c.Rule("block sequences (1..160 blocks of 1..4096 bytes, counts around the parallel threshold, any first block number) encrypted with GCM and AES-SIV, with and without HKDF, alone and by many goroutines on one instance; every block is decrypted by the reference and by the code itself, " +
		"outputs are kept and compared again at the end; all nonces of the run and of three fresh processes are collected in one set; writes merged into blocks at every kind of offset; a case is one block sequence or merge")
	c.Assume("a block has 1 to 4096 bytes; the reference is crypto/cipher's GCM and a separate implementation of RFC 5297")
	ns := &nonceSet{m: map[string]string{}}
	counts := []int{1, 2, 3, 7, 16, 30, 31, 32, 33, 34, 35, 63, 64, 65, 66, 67, 96, 127, 129, 160}
	firsts := []uint64{0, 1, 2, 255, 256, 65535, 1 << 31, 1<<32 - 17, 1 << 32, 1<<63 - 5, 1<<64 - 500}
	type kept struct {
		out, copy []byte
		what      string
	}
	one := func(r *rand.Rand, ce *contentenc.ContentEnc, ref *RefCrypto, n int, first uint64, what string) kept {
		id := randBytes(r, 16)
		if r.Intn(10) == 0 {
			id = nil
		}
		blocks := make([][]byte, n)
		orig := make([][]byte, n)
		uniform := r.Intn(3) > 0
		for i := range blocks {
			l := 4096
			if !uniform || i == n-1 {
				l = []int{1, 2, 15, 16, 17, 100, 4095, 4096, 1 + r.Intn(4096)}[r.Intn(9)]
			}
			blocks[i] = randBytes(r, l)
			if r.Intn(12) == 0 {
				blocks[i] = make([]byte, l) // zeros
			}
			orig[i] = append([]byte{}, blocks[i]...)
		}
		ct := ce.EncryptBlocks(blocks, first, id)
		for i := range blocks {
			if !eqb(blocks[i], orig[i]) {
				c.Violate("input-modified", "%s: plaintext block %d was changed", what, i)
			}
		}
		rest := ct
		for i := range blocks {
			l := len(orig[i]) + refOvh
			if len(rest) < l {
				c.Violate("bad-ciphertext", "%s: %d blocks give only %d bytes", what, n, len(ct))
				break
			}
			b := rest[:l]
			rest = rest[l:]
			ns.add(c, b[:16], fmt.Sprintf("%s block %d", what, i))
			no := first + uint64(i)
			if p, err := ref.openBlock(b, no, id); err != nil || !eqb(p, orig[i]) {
				c.Violate("bad-ciphertext", "%s: block %d of %d (block number %d, %d bytes) is not what the reference decrypts: %v", what, i, n, no, len(orig[i]), err)
			}
			if p, err := ce.DecryptBlock(b, no, id); err != nil || !eqb(p, orig[i]) {
				c.Violate("not-reversible", "%s: block %d of %d (block number %d) does not decrypt to itself: %v", what, i, n, no, err)
			}
			if bytes.Contains(b, orig[i]) && len(orig[i]) > 8 {
				c.Violate("bad-ciphertext", "%s: block %d holds its plaintext", what, i)
			}
		}
		if len(rest) != 0 {
			c.Violate("bad-ciphertext", "%s: %d bytes too many", what, len(rest))
		}
		if uniform {
			cc := append([]byte{}, ct...)
			p, err := ce.DecryptBlocks(ct, first, id)
			if err != nil || !eqb(p, bytes.Join(orig, nil)) {
				c.Violate("not-reversible", "%s: the sequence does not decrypt to itself: %v", what, err)
			}
			if !eqb(cc, ct) {
				c.Violate("input-modified", "%s: decryption changed the ciphertext", what)
			}
			c.Count("sequences_decrypted", 1)
		}
		c.Count("blocks", int64(n))
		c.Eval(what)
		return kept{ct, append([]byte{}, ct...), what}
	}
	check := func(ks []kept) {
		for _, k := range ks {
			if !eqb(k.out, k.copy) {
				c.Violate("output-overwritten", "%s: the returned ciphertext changed later", k.what)
			}
		}
	}
	var all []kept
	for ci, cfg := range contentCfgs {
		r := c.Rand("seq", ci)
		master := randBytes(r, 32)
		ce, _ := newCE(master, cfg)
		ref := newRefCrypto(master, cfg)
		for e := 0; e < c.N(400, 3000) && !c.Stopped(); e++ {
			n := counts[e%len(counts)]
			first := firsts[r.Intn(len(firsts))]
			if r.Intn(3) == 0 {
				first = r.Uint64()
			}
			k := one(r, ce, ref, n, first, fmt.Sprintf("cfg %d seq %d (%d blocks from %d)", ci, e, n, first))
			if e < 40 {
				all = append(all, k)
			}
		}
		// single blocks
		for e := 0; e < c.N(1200, 8000) && !c.Stopped(); e++ {
			pt := randBytes(r, 1+r.Intn(4096))
			id := randBytes(r, 16)
			no := r.Uint64()
			ct := ce.EncryptBlock(pt, no, id)
			ns.add(c, ct[:16], fmt.Sprintf("cfg %d single %d", ci, e))
			if p, err := ref.openBlock(ct, no, id); err != nil || !eqb(p, pt) {
				c.Violate("bad-ciphertext", "cfg %d: single block %d: %v", ci, no, err)
			}
			c.Eval(fmt.Sprint("single", ci, e))
			nonce := randBytes(r, 16)
			var det []byte
			pan := panicSafe(func() { det = ce.EncryptBlockNonce(pt, no, id, nonce) })
			if cfg.SIV {
				if pan != "" || !eqb(det, ref.sealBlock(nonce, pt, no, id)) {
					c.Violate("bad-ciphertext", "cfg %d: block with a given nonce differs from the reference %s", ci, pan)
				}
			} else if pan == "" {
				c.Violate("nonce-reuse", "cfg %d: a caller-chosen nonce is accepted in GCM mode", ci)
			}
		}
		// many goroutines on one instance
		for e := 0; e < c.N(24, 100) && !c.Stopped(); e++ {
			var wg sync.WaitGroup
			var mu sync.Mutex
			var ks []kept
			for g := 0; g < 8; g++ {
				gr := rand.New(rand.NewSource(r.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 6; k++ {
						n := counts[gr.Intn(len(counts))]
						x := one(gr, ce, ref, n, gr.Uint64(), fmt.Sprintf("cfg %d concurrent %d.%d.%d", ci, e, g, k))
						mu.Lock()
						ks = append(ks, x)
						mu.Unlock()
					}
				}()
			}
			wg.Wait()
			check(ks)
			c.Count("concurrent_sequences", int64(len(ks)))
		}
		c24Merge(c, r, ce, ci)
	}
	check(all)
	// 96-bit nonces draw from the same generator
	cc := cryptocore.New(make([]byte, 32), cryptocore.BackendGoGCM, 96, false, false)
	for i := 0; i < c.N(12000, 50000); i++ {
		n := cc.IVGenerator.Get()
		if len(n) != 12 {
			c.Violate("bad-nonce", "a 96-bit nonce has %d bytes", len(n))
			break
		}
		ns.add(c, n, fmt.Sprint("96-bit ", i))
	}
	// fresh processes
	for p := 0; p < 3; p++ {
		out, err := exec.Command(os.Args[0], "nonces").Output()
		if err != nil {
			c.Inconclusive("nonce process: %v", err)
			return
		}
		for i, l := range strings.Fields(string(out)) {
			b, _ := hex.DecodeString(l)
			ns.add(c, b, fmt.Sprintf("process %d item %d", p, i))
			c.Count("nonces_of_fresh_processes", 1)
		}
	}
	c.Count("nonces_distinct", int64(len(ns.m)))
	c.Sample(fmt.Sprintf("%d nonces, all distinct", len(ns.m)))
	hr := c.Rand("headers")
	for i := 0; i < c.N(5000, 200000); i++ {
		c24Header(c, hr)
	}
	c.Need("headers", 5000)
	c.Need("nonces_distinct", 15000)
	c.Need("nonces_of_fresh_processes", 9000)
	c.Need("concurrent_sequences", 100)
	c.Need("merges", 1000)
}

// c24Header writes and reads file headers.
func c24Header(c *Ctx, r *rand.Rand) {
	h := contentenc.RandomHeader()
	if r.Intn(2) == 0 {
		h = &contentenc.FileHeader{Version: 2, ID: randBytes(r, 16)}
	}
	id := append([]byte{}, h.ID...)
	b := h.Pack()
	c.Count("headers", 1)
	if want := append([]byte{0, 2}, id...); !eqb(b, want) {
		c.Violate("bad-header", "the header for the file ID %x is written as %x", id, b)
	}
	if g, err := contentenc.ParseHeader(append([]byte{0, 2}, id...)); err != nil || g.Version != 2 || !eqb(g.ID, id) {
		c.Violate("bad-header", "the header with the file ID %x is read as %v, %v", id, g, err)
	}
	bad := append([]byte{0, 2}, id...)
	switch r.Intn(5) {
	case 0:
		bad[r.Intn(2)] ^= byte(1 + r.Intn(255))
	case 1:
		bad = bad[:r.Intn(18)]
	case 2:
		bad = append(bad, randBytes(r, 1+r.Intn(20))...)
	case 3:
		bad = make([]byte, 18)
		bad[1] = 2
	case 4:
		bad = make([]byte, 18)
	}
	if g, err := contentenc.ParseHeader(bad); err == nil {
		c.Violate("bad-header", "%x is accepted as a header: %v", bad, g)
	}
}

func c24Merge(c *Ctx, r *rand.Rand, ce *contentenc.ContentEnc, ci int) {
	sizes := []int{0, 1, 2, 100, 2048, 4095, 4096}
	for e := 0; e < c.N(12000, 60000) && !c.Stopped(); e++ {
		pick := func(max int) int {
			if r.Intn(2) == 0 {
				return min(max, sizes[r.Intn(len(sizes))])
			}
			return r.Intn(max + 1)
		}
		old := randBytes(r, pick(4096))
		off := pick(4096)
		nw := randBytes(r, pick(4096-off))
		want := make([]byte, max(len(old), off+len(nw)))
		copy(want, old)
		copy(want[off:], nw)
		o2, n2 := append([]byte{}, old...), append([]byte{}, nw...)
		var got []byte
		if p := panicSafe(func() { got = ce.MergeBlocks(old, nw, off) }); p != "" || !eqb(got, want) {
			c.Violate("bad-merge", "merging %d bytes at %d into %d bytes: %s %s", len(nw), off, len(old), diffDesc(got, want), p)
		}
		if !eqb(old, o2) || !eqb(nw, n2) {
			c.Violate("input-modified", "merging changed its input")
		}
		c.Count("merges", 1)
		c.Eval(fmt.Sprint("merge", len(old), off, len(nw)))
	}
}

// ---- C25 ----

func runC25(c *Ctx) {
	c.Rule("names of every length 1..255 and of random bytes, under random and special IVs, with and without HKDF, padded and raw base64, long names on and off, compared with the reference in both directions; " +
		"and arbitrary strings (mutated ciphertexts, encryptions of invalid names and of wrong paddings, random base64, any length) under IVs of any length, compared with the reference; a case is one call")
	c.Assume("the reference is a separate implementation of the padding, encoding and name checks around the same EME library")
	cfgs := []VolCfg{{HKDF: true, Raw64: true}, {HKDF: true}, {Raw64: true}, {}}
	for ci, cfg := range cfgs {
		r := c.Rand("names", ci)
		master := randBytes(r, 32)
		_, cc := newCE(master, cfg)
		ref := newRefCrypto(master, cfg)
		nt := nametransform.New(cc.EMECipher, true, cfg.Raw64)
		ntShort := nametransform.New(cc.EMECipher, false, cfg.Raw64)
		name := func(n int) string {
			for {
				b := randBytes(r, n)
				switch r.Intn(3) {
				case 0:
					for i := range b {
						b[i] = "abcdefgh .-_~\x01\x02\x0f\x10\xff\n"[r.Intn(19)]
					}
				case 1: // ends like a padding
					for i := max(0, n-r.Intn(17)); i < n; i++ {
						b[i] = byte(1 + r.Intn(16))
					}
				}
				for i := range b {
					if b[i] == 0 || b[i] == '/' {
						b[i] = 'x'
					}
				}
				if s := string(b); s != "." && s != ".." {
					return s
				}
			}
		}
		ivs := [][]byte{make([]byte, 16), bytes.Repeat([]byte{255}, 16)}
		for rep := 0; rep < c.N(60, 300) && !c.Stopped(); rep++ {
			for n := 1; n <= 255; n++ {
				nm := name(n)
				iv := randBytes(r, 16)
				if rep < 2 {
					iv = ivs[rep]
				}
				want := ref.encryptName(nm, iv)
				got := nt.EncryptName(nm, iv)
				if got != want {
					c.Violate("not-standard", "%q (%d bytes) under iv %x encrypts to %q, gocryptfs stores %q", nm, n, iv, got, want)
				}
				back, err := nt.DecryptName(want, iv)
				if err != nil || back != nm {
					c.Violate("not-reversible", "%q (%d bytes) stored as %q decrypts to %q, %v", nm, n, want, back, err)
				}
				h, err := nt.EncryptAndHashName(nm, iv)
				wh := want
				if len(want) > 255 {
					wh = ref.hashLongName(want)
					c.Count("long_names", 1)
				}
				if err != nil || h != wh {
					c.Violate("not-standard", "%q (%d bytes) is stored as %q, %v; gocryptfs stores %q", nm, n, h, err, wh)
				}
				if h, err := ntShort.EncryptAndHashName(nm, iv); err != nil || h != want {
					c.Violate("not-standard", "without long names %q (%d bytes) is stored as %q, %v; want %q", nm, n, h, err, want)
				}
				wantType := nametransform.LongNameNone
				if len(want) > 255 {
					wantType = nametransform.LongNameContent
					if nametransform.NameType(wh+".name") != nametransform.LongNameFilename || nametransform.RemoveLongNameSuffix(wh+".name") != wh || !nametransform.IsLongContent(wh) {
						c.Violate("not-standard", "long-name file names are misjudged: %q", wh)
					}
				}
				if t := nametransform.NameType(wh); t != wantType {
					c.Violate("not-standard", "%q has name type %d, want %d", wh, t, wantType)
				}
				c.Eval(fmt.Sprint(ci, "name", n, rep))
				c.Count("names", 1)
			}
		}
		for n := 256; n < 300; n += 7 {
			if h, err := nt.EncryptAndHashName(name(n), randBytes(r, 16)); err == nil {
				c.Violate("not-standard", "a name of %d bytes is accepted as %q", n, h)
			}
		}
		// arbitrary strings
		bad := []string{"", ".", "..", "/", "a/b", "a\x00", "\x00", "../x", "x/", "\x00\x00"}
		for e := 0; e < c.N(120000, 600000) && !c.Stopped(); e++ {
			iv := randBytes(r, 16)
			var s, what string
			switch e % 7 {
			case 0: // a stored name, changed
				b := []byte(ref.encryptName(name(1+r.Intn(255)), iv))
				for k := 0; k < 1+r.Intn(3); k++ {
					b[r.Intn(len(b))] = "ABCDxyz-_=+/\n\r 09\x00\xff"[r.Intn(19)]
				}
				s, what = string(b), "changed"
			case 1:
				nm := bad[r.Intn(len(bad))]
				p := 16 - len(nm)%16
				s, what = ref.encryptRawName(append([]byte(nm), bytes.Repeat([]byte{byte(p)}, p)...), iv), "invalid name"
			case 2: // wrong padding
				b := randBytes(r, 16*(1+r.Intn(5)))
				for i := range b {
					if b[i] == 0 || b[i] == '/' {
						b[i] = 'q'
					}
				}
				pl := r.Intn(20)
				for i := max(0, len(b)-pl); i < len(b); i++ {
					b[i] = byte(pl)
				}
				if r.Intn(2) == 0 {
					b[len(b)-1-r.Intn(min(len(b), 17))] = byte(r.Intn(20))
				}
				s, what = ref.encryptRawName(b, iv), "odd padding"
			case 3:
				s, what = ref.b64.EncodeToString(randBytes(r, r.Intn(300))), "random base64"
			case 4:
				s, what = ref.b64.EncodeToString(randBytes(r, 16*r.Intn(140))), "random blocks"
			case 5:
				s, what = string(randBytes(r, r.Intn(60))), "random bytes"
			case 6:
				s, what = ref.encryptName(name(1+r.Intn(255)), iv), "other iv"
				iv = randBytes(r, []int{0, 1, 15, 16, 17, 32, 255}[r.Intn(7)])
				if r.Intn(20) == 0 {
					iv = nil
				}
			}
			var got string
			var err error
			if p := panicSafe(func() { got, err = nt.DecryptName(s, iv) }); p != "" {
				c.Violate("panic", "DecryptName of %q (%s) under iv %x panics: %s", clip(s, 300), what, iv, p)
				continue
			}
			want, ok := ref.decryptName(s, iv)
			switch {
			case ok && (err != nil || got != want):
				c.Violate("not-reversible", "%q (%s) under iv %x decrypts to %q, %v; the reference gives %q", clip(s, 300), what, iv, got, err, want)
			case err == nil && (got == "" || got == "." || got == ".." || strings.ContainsAny(got, "/\x00")):
				c.Violate("invalid-name", "%q (%s) under iv %x decrypts to the invalid name %q", clip(s, 300), what, iv, got)
			case !ok && err == nil:
				c.Violate("accepted", "%q (%s) under iv %x is accepted as %q although it is no encrypted name", clip(s, 300), what, iv, got)
			}
			if ok {
				c.Count("strings_accepted", 1)
			}
			c.Count("strings", 1)
			c.Eval(fmt.Sprint(ci, "str", e))
		}
	}
	c.Need("names", 10000)
	c.Need("long_names", 1000)
	c.Need("strings", 50000)
	c.Need("strings_accepted", 500)
}

// ---- C26 ----

func runC26(c *Ctx) {
	c.Rule("all plaintext lengths up to some thousand and lengths around block boundaries up to 2^62, converted both ways; plaintext and ciphertext ranges at offsets and lengths around block boundaries up to 2^62, split into blocks; against arithmetic on big integers; for several block sizes and IV lengths; a case is one length or range")
	c.Assume("ciphertext ranges start behind the 18-byte header")
	type geo struct {
		bs, iv uint64
	}
	for gi, g := range []geo{{4096, 16}, {4096, 12}, {512, 16}, {65536, 16}, {16, 16}} {
		cc := cryptocore.New(make([]byte, 32), cryptocore.BackendGoGCM, int(g.iv)*8, true, false)
		ce := contentenc.New(cc, g.bs, false)
		cbs := g.bs + g.iv + 16
		if ce.PlainBS() != g.bs || ce.CipherBS() != cbs || ce.BlockOverhead() != g.iv+16 {
			c.Violate("block-size", "geometry %v: PlainBS %d CipherBS %d overhead %d", g, ce.PlainBS(), ce.CipherBS(), ce.BlockOverhead())
		}
		r := c.Rand("geo", gi)
		near := func() uint64 { // an interesting offset
			var base uint64
			switch r.Intn(4) {
			case 0:
				base = uint64(r.Intn(6))
			case 1:
				base = uint64(r.Intn(100000))
			case 2:
				base = r.Uint64() >> (20 + uint(r.Intn(40)))
			case 3:
				base = (1 << 48) / g.bs * uint64(1+r.Intn(3))
			}
			base %= (1 << 62) / cbs
			u := g.bs
			if r.Intn(2) == 0 {
				u = cbs
			}
			d := uint64(r.Intn(40))
			if r.Intn(3) == 0 {
				d = uint64(r.Int63n(int64(u)))
			}
			x := base * u
			if r.Intn(2) == 0 || x < d {
				return x + d
			}
			return x - d
		}
		size := func(n uint64) {
			nb := new(big.Int).SetUint64(n)
			blocks := new(big.Int).Div(new(big.Int).Add(nb, big.NewInt(int64(g.bs-1))), big.NewInt(int64(g.bs)))
			want := new(big.Int).Add(nb, new(big.Int).Mul(blocks, big.NewInt(int64(g.iv+16))))
			if n > 0 {
				want.Add(want, big.NewInt(18))
			}
			got := ce.PlainSizeToCipherSize(n)
			if !want.IsUint64() || got != want.Uint64() {
				c.Violate("size", "geometry %v: %d plaintext bytes are stored in %d bytes, want %s", g, n, got, want)
			}
			if back := ce.CipherSizeToPlainSize(want.Uint64()); back != n {
				c.Violate("size", "geometry %v: %s stored bytes hold %d plaintext bytes, want %d", g, want, back, n)
			}
			if n > 0 {
				if b := ce.PlainOffToBlockNo(n); b != n/g.bs || ce.BlockNoToPlainOff(b) > n || n-ce.BlockNoToPlainOff(b) >= g.bs {
					c.Violate("offset", "geometry %v: plaintext offset %d is in block %d at %d", g, n, b, ce.BlockNoToPlainOff(b))
				}
				co := n + 17
				if b := ce.CipherOffToBlockNo(co); b != (co-18)/cbs || ce.BlockNoToCipherOff(b) > co || co-ce.BlockNoToCipherOff(b) >= cbs {
					c.Violate("offset", "geometry %v: ciphertext offset %d is in block %d at %d", g, co, b, ce.BlockNoToCipherOff(b))
				}
			}
			c.Count("sizes", 1)
			c.Eval(fmt.Sprint(g, "size", n))
		}
		limit := c.N(20000, 300000)
		for n := 0; n < limit; n++ {
			size(uint64(n))
		}
		for e := 0; e < c.N(80000, 400000) && !c.Stopped(); e++ {
			size(near())
		}
		if ce.CipherSizeToPlainSize(18) != 0 {
			c.Violate("size", "a bare header holds %d bytes", ce.CipherSizeToPlainSize(18))
		}
		// corrupt sizes never panic and never give more than is stored
		for n := uint64(0); n < 3*cbs+100; n++ {
			var p uint64
			if x := panicSafe(func() { p = ce.CipherSizeToPlainSize(n) }); x != "" {
				c.Violate("size", "geometry %v: %d stored bytes: %s", g, n, x)
			} else if p > n {
				c.Violate("size", "geometry %v: %d stored bytes hold %d plaintext bytes", g, n, p)
			}
		}
		// ranges
		for e := 0; e < c.N(120000, 600000) && !c.Stopped(); e++ {
			plain := e%2 == 0
			off := near()
			unit, base := g.bs, uint64(0)
			if !plain {
				off += 18
				unit, base = cbs, 18
			}
			length := uint64(r.Intn(int(min(6*unit, 300000))))
			switch r.Intn(8) {
			case 0:
				length = 0
			case 1:
				length = unit - (off-base)%unit // exactly to the end of the block
			case 2:
				length = unit * uint64(r.Intn(4))
			case 3:
				length = 1
			}
			var bl []contentenc.IntraBlock
			if plain {
				bl = ce.ExplodePlainRange(off, length)
			} else {
				bl = ce.ExplodeCipherRange(off, length)
			}
			what := fmt.Sprintf("geometry %v plain %v: range %d+%d", g, plain, off, length)
			pos := off
			for i := range bl {
				b := &bl[i]
				start := base + b.BlockNo*unit
				if b.Length == 0 || b.Skip+b.Length > unit || start+b.Skip != pos {
					c.Violate("range", "%s: piece %d is block %d skip %d length %d, the next byte is %d", what, i, b.BlockNo, b.Skip, b.Length, pos)
				}
				pos += b.Length
				if b.BlockPlainOff() != b.BlockNo*g.bs || b.BlockCipherOff() != 18+b.BlockNo*cbs {
					c.Violate("offset", "%s: block %d is said to be at %d / %d", what, b.BlockNo, b.BlockPlainOff(), b.BlockCipherOff())
				}
				if plain {
					if b.IsPartial() != (b.Skip > 0 || b.Length < g.bs) {
						c.Violate("range", "%s: piece %d (skip %d, length %d) partial: %v", what, i, b.Skip, b.Length, b.IsPartial())
					}
					have := int(b.Skip) + r.Intn(int(g.bs-b.Skip)+1)
					d := randBytes(r, have)
					want := d[b.Skip:min(have, int(b.Skip+b.Length))]
					if got := b.CropBlock(d); !eqb(got, want) {
						c.Violate("range", "%s: cropping %d bytes to skip %d length %d gives %d bytes", what, have, b.Skip, b.Length, len(got))
					}
				}
			}
			if pos != off+length {
				c.Violate("range", "%s: the pieces cover %d bytes", what, pos-off)
			}
			if len(bl) > 0 {
				first, last := bl[0], bl[len(bl)-1]
				if plain {
					jo, jl := contentenc.JointPlaintextRange(bl)
					if jo != first.BlockNo*g.bs || jl != (last.BlockNo+1)*g.bs-jo || jo > off || jo+jl < off+length {
						c.Violate("range", "%s: joint plaintext range %d+%d", what, jo, jl)
					}
				}
				jo, jl := bl[0].JointCiphertextRange(bl)
				if jo != 18+first.BlockNo*cbs || jo+jl != 18+(last.BlockNo+1)*cbs {
					c.Violate("range", "%s: joint ciphertext range %d+%d", what, jo, jl)
				}
				c.Count("pieces", int64(len(bl)))
			}
			c.Count("ranges", 1)
			c.Eval(fmt.Sprint(g, plain, off, length))
		}
	}
	c.Need("sizes", 50000)
	c.Need("ranges", 50000)
}

// ---- C29 ----

func runC29(c *Ctx) {
	c.Rule("random keys, nonces, associated data (0..200 bytes) and plaintexts (0..9000 bytes, around AES block sizes), sealed and opened, compared with a separate implementation of RFC 5297, with output buffers of any length and capacity; then every kind of change to ciphertext, nonce, associated data or key, all of which must be refused without output; and many goroutines on one instance; a case is one message or one change")
	c.Assume("the reference is checked against the RFC 5297 test vectors at start")
	if d := sivSelfTest(); d != "" {
		c.Inconclusive("the reference fails the RFC vectors: %s", d)
		return
	}
	type msg struct{ nonce, ad, pt, ct []byte }
	gen := func(r *rand.Rand) msg {
		n := []int{0, 1, 15, 16, 17, 31, 32, 33, 4096, r.Intn(200), r.Intn(9000)}[r.Intn(11)]
		m := msg{nonce: randBytes(r, 16), ad: randBytes(r, []int{0, 8, 24, r.Intn(200)}[r.Intn(4)]), pt: randBytes(r, n)}
		if r.Intn(10) == 0 {
			m.ad = nil
		}
		if r.Intn(10) == 0 {
			m.pt = make([]byte, n)
		}
		return m
	}
	for e := 0; e < c.N(12000, 40000) && !c.Stopped(); e++ {
		r := c.Rand(e)
		key := randBytes(r, 64)
		kcopy := append([]byte{}, key...)
		a := siv_aead.New(key)
		for i := range key {
			key[i] = 0 // the caller wipes its copy
		}
		if a.NonceSize() != 16 || a.Overhead() != 16 {
			c.Violate("interface", "nonce size %d, overhead %d", a.NonceSize(), a.Overhead())
		}
		for k := 0; k < 6; k++ {
			m := gen(r)
			dst := make([]byte, r.Intn(40), 40+r.Intn(10000))
			r.Read(dst)
			prefix := append([]byte{}, dst...)
			in := msg{append([]byte{}, m.nonce...), append([]byte{}, m.ad...), append([]byte{}, m.pt...), nil}
			sealed := a.Seal(dst, m.nonce, m.pt, m.ad)
			want := refSIVSeal(kcopy, m.nonce, m.pt, m.ad)
			if !eqb(sealed, append(append([]byte{}, prefix...), want...)) {
				c.Violate("not-rfc5297", "sealing %d bytes with %d bytes of associated data into a buffer of %d: %s", len(m.pt), len(m.ad), len(prefix), diffDesc(sealed, append(append([]byte{}, prefix...), want...)))
			}
			m.ct = want
			dst2 := append(make([]byte, 0, len(prefix)+r.Intn(9000)), prefix...)
			opened, err := a.Open(dst2, m.nonce, want, m.ad)
			if err != nil || !eqb(opened, append(append([]byte{}, prefix...), m.pt...)) {
				c.Violate("not-reversible", "opening %d sealed bytes into a buffer of %d: %v %s", len(want), len(prefix), err, diffDesc(opened, append(append([]byte{}, prefix...), m.pt...)))
			}
			if !eqb(in.nonce, m.nonce) || !eqb(in.ad, m.ad) || !eqb(in.pt, m.pt) {
				c.Violate("input-modified", "an input was changed")
			}
			c.Eval(fmt.Sprint("msg", e, k))
			c.Count("messages", 1)
			// changes
			for t := 0; t < 10; t++ {
				n, ad, ct := append([]byte{}, m.nonce...), append([]byte{}, m.ad...), append([]byte{}, m.ct...)
				aa := a
				what := ""
				switch t {
				case 0:
					n[r.Intn(16)] ^= 1 << uint(r.Intn(8))
					what = "nonce bit"
				case 1:
					if len(ad) == 0 {
						continue
					}
					ad[r.Intn(len(ad))] ^= 1 << uint(r.Intn(8))
					what = "associated data bit"
				case 2:
					ct[r.Intn(16)] ^= 1 << uint(r.Intn(8))
					what = "tag bit"
				case 3:
					ct[len(ct)-1-r.Intn(len(ct))] ^= 1 << uint(r.Intn(8))
					what = "ciphertext bit"
				case 4:
					ct = ct[:r.Intn(len(ct))]
					what = "truncation"
				case 5:
					ct = append(ct, byte(r.Intn(256)))
					what = "extension"
				case 6:
					k2 := append([]byte{}, kcopy...)
					// the second half of the key drives CTR only: with a plaintext of a few
					// bytes two keys often give the same key stream
					half := 64
					if len(ct) < 32 {
						half = 32
					}
					k2[r.Intn(half)] ^= 1 << uint(r.Intn(8))
					aa = siv_aead.New(k2)
					what = "key bit"
				case 7:
					ad = append(ad, 0)
					what = "associated data extended"
				case 8:
					if len(ad) == 0 {
						continue
					}
					ad = ad[:len(ad)-1]
					what = "associated data truncated"
				case 9:
					if len(ct) < 48 {
						continue
					}
					copy(ct[16:32], m.ct[32:48])
					if eqb(ct, m.ct) {
						continue
					}
					what = "block moved"
				}
				pre := randBytes(r, r.Intn(20))
				var out []byte
				var err error
				if p := panicSafe(func() { out, err = aa.Open(append(make([]byte, 0, 9100), pre...), n, ct, ad) }); p != "" {
					c.Violate("panic", "%s: %s", what, p)
					continue
				}
				c.Count("changes", 1)
				c.Eval(fmt.Sprint("chg", e, k, t))
				if err == nil {
					c.Violate("forgery", "%s is accepted (%d sealed bytes)", what, len(ct))
				} else if len(out) > len(pre) {
					c.Violate("unauthenticated-output", "%s is refused but %d bytes are returned", what, len(out)-len(pre))
				}
			}
		}
	}
	// concurrent use of one instance
	for e := 0; e < c.N(60, 400) && !c.Stopped(); e++ {
		r := c.Rand("conc", e)
		key := randBytes(r, 64)
		a := siv_aead.New(key)
		var wg sync.WaitGroup
		for g := 0; g < 8; g++ {
			gr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func() {
				defer wg.Done()
				for k := 0; k < 60; k++ {
					m := gen(gr)
					s := a.Seal(nil, m.nonce, m.pt, m.ad)
					if !eqb(s, refSIVSeal(key, m.nonce, m.pt, m.ad)) {
						c.Violate("not-rfc5297", "concurrent seal of %d bytes differs", len(m.pt))
					}
					p, err := a.Open(nil, m.nonce, s, m.ad)
					if err != nil || !eqb(p, m.pt) {
						c.Violate("not-reversible", "concurrent open: %v", err)
					}
					c.Count("concurrent_messages", 1)
					c.Eval("")
				}
			}()
		}
		wg.Wait()
	}
	c.Need("messages", 1000)
	c.Need("changes", 10000)
	c.Need("concurrent_messages", 2000)
}

// sivSelfTest: RFC 5297 A.1 and A.2.
func sivSelfTest() string {
	h := func(s string) []byte { b, err := hex.DecodeString(strings.ReplaceAll(s, " ", "")); must(err); return b }
	key := h("fffefdfc fbfaf9f8 f7f6f5f4 f3f2f1f0 f0f1f2f3 f4f5f6f7 f8f9fafb fcfdfeff")
	ad := h("10111213 14151617 18191a1b 1c1d1e1f 20212223 24252627")
	pt := h("11223344 55667788 99aabbcc ddee")
	mac, ctr := sivCiphers(key)
	v := sivS2V(mac, [][]byte{ad}, pt)
	if got := hex.EncodeToString(append(v, sivCTR(ctr, v, pt)...)); got != "85632d07c6e8f37f950acd320a2ecc9340c02b9690c4dc04daef7f6afe5c" {
		return "A.1 " + got
	}
	key = h("7f7e7d7c 7b7a7978 77767574 73727170 40414243 44454647 48494a4b 4c4d4e4f")
	ad1 := h("00112233 44556677 8899aabb ccddeeff deaddada deaddada ffeeddcc bbaa9988 77665544 33221100")
	ad2 := h("10203040 50607080 90a0")
	nonce := h("09f91102 9d74e35b d84156c5 635688c0")
	pt = h("74686973 20697320 736f6d65 20706c61 696e7465 78742074 6f20656e 63727970 74207573 696e6720 5349562d 414553")
	mac, ctr = sivCiphers(key)
	v = sivS2V(mac, [][]byte{ad1, ad2, nonce}, pt)
	if got := hex.EncodeToString(append(v, sivCTR(ctr, v, pt)...)); got != "7bdb6e3b432667eb06f4d14bff2fbd0fcb900f2fddbe404326601965c889bf17dba77ceb094fa663b7a3f748ba8af829ea64ad544a272e9c485b62a3fd5c0d" {
		return "A.2 " + got
	}
	return ""
}
