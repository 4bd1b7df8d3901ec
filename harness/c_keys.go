package main

import (
	"bytes"
	"crypto/cipher"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"sync"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/contentenc"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/cryptocore"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/nametransform"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/siv_aead"
)

func init() { register("C31", &Check{Run: runC31}) }

// instance is one set of ciphers together with the reference for its key.
type instance struct {
	core *cryptocore.CryptoCore
	enc  *contentenc.ContentEnc
	nt   *nametransform.NameTransform
	ref  *RefCrypto
	cfg  VolCfg
	key  []byte // private copy of what it was made with
	buf  []byte // what was passed in
}

func newInstance(key []byte, cfg VolCfg) *instance {
	in := &instance{cfg: cfg, key: append([]byte{}, key...), buf: append([]byte{}, key...)}
	b := cryptocore.BackendGoGCM
	if cfg.SIV {
		b = cryptocore.BackendAESSIV
	}
	in.core = cryptocore.New(in.buf, b, contentenc.DefaultIVBits, cfg.HKDF, false)
	in.enc = contentenc.New(in.core, contentenc.DefaultBS, false)
	in.nt = nametransform.New(in.core.EMECipher, cfg.LongNames, cfg.Raw64)
	in.ref = newRefCrypto(in.key, cfg)
	return in
}

// works compares one encryption and decryption of content and name with the reference.
func (in *instance) works(r *rand.Rand) string {
	pt, id, no := randBytes(r, 1+r.Intn(4096)), randBytes(r, 16), uint64(r.Intn(1000))
	ct := in.enc.EncryptBlock(append([]byte{}, pt...), no, id)
	if p, err := in.ref.openBlock(ct, no, id); err != nil || !bytes.Equal(p, pt) {
		return fmt.Sprintf("an encrypted block is not one of its key (%v)", err)
	}
	rt := in.ref.sealBlock(randBytes(r, 16), pt, no, id)
	if p, err := in.enc.DecryptBlock(rt, no, id); err != nil || !bytes.Equal(p, pt) {
		return fmt.Sprintf("a block of its key is not decrypted (%v)", err)
	}
	name, iv := randName(r), randBytes(r, 16)
	if g, w := in.nt.EncryptName(name, iv), in.ref.encryptName(name, iv); g != w {
		return "an encrypted name is not one of its key"
	}
	if g, err := in.nt.DecryptName(in.ref.encryptName(name, iv), iv); err != nil || g != name {
		return fmt.Sprintf("a name of its key is not decrypted (%v)", err)
	}
	return ""
}

func runC31(c *Ctx) {
	c.Rule("one case = one cipher instance (feature flags, key, history of key-buffer changes, wipes of other instances), each judged by encrypting and decrypting against an independent implementation under the original key; " +
		"or one set of random values handed out; distinct = distinct histories")
	c.Assume("memory inside the Go standard library's ciphers cannot be wiped; what counts is that a wiped instance does not encrypt or decrypt any more")
	for _, k := range []string{"instances", "wiped", "cross_key", "key_buffer_changed", "random_values", "created_configs"} {
		c.Need(k, 10)
	}
	for i := 0; i < c.N(1500, 40000) && !c.Stopped(); i++ {
		c31Instances(c, c.Rand("inst", i), i)
	}
	c31KeyLengths(c)
	for i := 0; i < c.N(6, 60) && !c.Stopped(); i++ {
		c31Random(c, c.Rand("rnd", i), i)
	}
	c31Created(c)
}

func c31Instances(c *Ctx, r *rand.Rand, i int) {
	cfg := cfgAll[r.Intn(len(cfgAll))]
	key := randBytes(r, 32)
	what := fmt.Sprintf("%s, history %d", cfgStr(cfg), i)
	c.Eval(fmt.Sprint("instance", i))
	pan := panicSafe(func() {
		a := newInstance(key, cfg)
		b := newInstance(key, cfg)
		ocfg := cfg
		other := append([]byte{}, key...)
		switch r.Intn(3) {
		case 0:
			other[r.Intn(32)] ^= 1 << uint(r.Intn(8))
		case 1:
			other = randBytes(r, 32)
		case 2: // the same key under another derivation
			ocfg.HKDF = !cfg.HKDF
		}
		o := newInstance(other, ocfg)
		c.Count("instances", 3)
		for _, x := range []*instance{a, b, o} {
			if !bytes.Equal(x.buf, x.key) {
				c.Violate("key-modified", "%s: setting up the ciphers changes the caller's key", what)
				return
			}
		}
		check := func(x *instance, when string) bool {
			if d := x.works(r); d != "" {
				c.Violate("key-not-honoured", "%s: %s: %s", what, when, d)
				return false
			}
			return true
		}
		if !check(a, "fresh") || !check(o, "fresh, beside others") {
			return
		}
		// the caller's buffer is his own
		for k := range a.buf {
			a.buf[k] = []byte{0, 0xff, byte(r.Intn(256))}[i%3]
		}
		c.Count("key_buffer_changed", 1)
		if !check(a, "after the caller overwrote his key buffer") {
			return
		}
		// instances of different keys do not read each other
		c.Count("cross_key", 1)
		pt, id, iv := randBytes(r, 1+r.Intn(300)), randBytes(r, 16), randBytes(r, 16)
		ct := a.enc.EncryptBlock(append([]byte{}, pt...), 1, id)
		if p, err := o.enc.DecryptBlock(append([]byte{}, ct...), 1, id); err == nil {
			c.Violate("keys-not-separate", "%s: a block of one key is opened by another one: %q", what, clip(string(p), 40))
		}
		n := a.nt.EncryptName("a name of some length", iv)
		if p, err := o.nt.DecryptName(n, iv); err == nil && p == "a name of some length" {
			c.Violate("keys-not-separate", "%s: a name of one key is decrypted by another one", what)
		}
		// wiping
		held := a.core.AEADCipher
		if i%2 == 0 {
			a.enc.Wipe()
		} else {
			a.core.Wipe()
		}
		c.Count("wiped", 1)
		used := func(how string, f func() bool) {
			ok := false
			_ = panicSafe(func() { ok = f() })
			if ok {
				c.Violate("usable-after-wipe", "%s: after wiping, %s", what, how)
			}
		}
		used("a block is decrypted", func() bool {
			p, err := a.enc.DecryptBlock(append([]byte{}, ct...), 1, id)
			return err == nil && bytes.Equal(p, pt)
		})
		used("a block is encrypted", func() bool {
			x := a.enc.EncryptBlock(append([]byte{}, pt...), 1, id)
			p, err := a.ref.openBlock(x, 1, id)
			return err == nil && bytes.Equal(p, pt)
		})
		used("the core still has a usable content cipher", func() bool {
			return a.core.AEADCipher != nil && usable(a.core.AEADCipher, r)
		})
		used("the core still has a usable name cipher", func() bool {
			return a.core.EMECipher != nil && a.core.EMECipher.Encrypt(make([]byte, 16), make([]byte, 16)) != nil
		})
		if cfg.SIV {
			used("the AES-SIV cipher still works", func() bool { return usable(held, r) })
		}
		if !check(b, "after another instance of the same key was wiped") || !check(o, "after an instance of another key was wiped") {
			return
		}
		if i%10 == 0 { // wiping beside concurrent use
			w := newInstance(key, cfg)
			var wg sync.WaitGroup
			for g := 0; g < 4; g++ {
				rr := rand.New(rand.NewSource(r.Int63()))
				wg.Add(1)
				go func() {
					defer wg.Done()
					for k := 0; k < 6; k++ {
						if d := b.works(rr); d != "" {
							c.Violate("key-not-honoured", "%s: while another instance is wiped: %s", what, d)
						}
					}
				}()
			}
			w.core.Wipe()
			wg.Wait()
			c.Count("wiped_beside_use", 1)
		}
	})
	if pan != "" {
		c.Violate("panic", "%s: %s", what, pan)
	}
	// the AES-SIV cipher on its own
	k64 := randBytes(r, 64)
	buf := append([]byte{}, k64...)
	pan = panicSafe(func() {
		x := siv_aead.New(buf)
		for k := range buf {
			buf[k] = 0
		}
		nonce, pt, ad := randBytes(r, 16), randBytes(r, 1+r.Intn(100)), randBytes(r, 24)
		if g := x.Seal(nil, nonce, pt, ad); !bytes.Equal(g, refSIVSeal(k64, nonce, pt, ad)) {
			c.Violate("key-not-honoured", "AES-SIV: after the caller overwrote his key buffer, the result is not that of the key")
		}
	})
	if pan != "" {
		c.Violate("panic", "AES-SIV: %s", pan)
	}
}

func usable(a cipher.AEAD, r *rand.Rand) bool {
	nonce := randBytes(r, 16)
	ct := a.Seal(nil, nonce, []byte("some text"), nil)
	p, err := a.Open(nil, nonce, ct, nil)
	return err == nil && string(p) == "some text"
}

func c31KeyLengths(c *Ctx) {
	for _, n := range []int{0, 1, 16, 24, 31, 33, 64} {
		for _, b := range []cryptocore.AEADTypeEnum{cryptocore.BackendGoGCM, cryptocore.BackendAESSIV} {
			for _, h := range []bool{true, false} {
				c.Eval(fmt.Sprint("keylen", n, b, h))
				if pan := panicSafe(func() { _ = cryptocore.New(make([]byte, n), b, 128, h, false) }); pan == "" {
					c.Violate("key-length", "a key of %d bytes is accepted (backend %d, hkdf %v)", n, b, h)
				}
			}
		}
	}
	for _, n := range []int{0, 32, 48, 63, 65} {
		c.Eval(fmt.Sprint("siv keylen", n))
		if pan := panicSafe(func() { _ = siv_aead.New(make([]byte, n)) }); pan == "" {
			c.Violate("key-length", "AES-SIV takes a key of %d bytes", n)
		}
	}
}

// c31Random: everything random that is handed out, concurrently, is fresh. Values are cut
// into pieces of 8 bytes: with honest randomness, two equal ones are practically excluded.
func c31Random(c *Ctx, r *rand.Rand, i int) {
	c.Eval(fmt.Sprint("random", i))
	type src struct {
		name string
		n    int
		get  func() []byte
	}
	gen := newInstance(randBytes(r, 32), cfgAll[i%len(cfgAll)])
	var mu sync.Mutex
	seen := map[string]string{}
	add := func(name string, b []byte, want int) {
		mu.Lock()
		defer mu.Unlock()
		c.Count("random_values", 1)
		if len(b) != want {
			c.Violate("randomness", "%s gives %d bytes, want %d", name, len(b), want)
			return
		}
		for k := 0; k+8 <= len(b); k += 8 {
			s := string(b[k : k+8])
			if s == "\x00\x00\x00\x00\x00\x00\x00\x00" {
				c.Violate("randomness", "%s gives a value with a run of zeros: %x", name, b)
				return
			}
			if o, dup := seen[s]; dup {
				c.Violate("randomness", "%s gives %x, part of which was handed out before by %s", name, b, o)
				return
			}
			seen[s] = name
		}
	}
	srcs := []src{
		{"the nonce generator", 16, func() []byte { return gen.core.IVGenerator.Get() }},
		{"RandBytes(16)", 16, func() []byte { return cryptocore.RandBytes(16) }},
		{"RandBytes(64)", 64, func() []byte { return cryptocore.RandBytes(64) }},
		{"RandBytes(1000)", 1000, func() []byte { return cryptocore.RandBytes(1000) }},
		{"RandUint64", 8, func() []byte { return be64(cryptocore.RandUint64()) }},
		{"the file header", 18, func() []byte { return contentenc.RandomHeader().Pack() }},
		{"the scrypt salt", 32, func() []byte { x := configfile.NewScryptKDF(10); return x.Salt }},
	}
	var wg sync.WaitGroup
	for g := 0; g < 8; g++ {
		rr := rand.New(rand.NewSource(r.Int63()))
		wg.Add(1)
		go func() {
			defer wg.Done()
			for k := 0; k < 1500 && !c.Stopped(); k++ {
				s := srcs[rr.Intn(len(srcs))]
				var b []byte
				if pan := panicSafe(func() { b = s.get() }); pan != "" {
					c.Violate("panic", "%s: %s", s.name, pan)
					return
				}
				if s.n == 18 {
					if len(b) == 18 {
						add(s.name, b[2:], 16)
					} else {
						add(s.name, b, 18)
					}
				} else {
					add(s.name, b, s.n)
				}
			}
		}()
	}
	wg.Wait()
}

// c31Created: configurations created or given a new password use fresh salts, nonces and
// keys.
func c31Created(c *Ctx) {
	seen := map[string]string{}
	fresh := func(what string, b []byte) {
		if len(b) < 8 || bytes.Equal(b, make([]byte, len(b))) {
			c.Violate("randomness", "%s is %x", what, b)
			return
		}
		if o, dup := seen[string(b)]; dup {
			c.Violate("randomness", "%s equals %s", what, o)
		}
		seen[string(b)] = what
	}
	pw := []byte("the same password")
	for i := 0; i < c.N(16, 100); i++ {
		c.Eval(fmt.Sprint("created", i))
		c.Count("created_configs", 1)
		f := filepath.Join(c.Dir, fmt.Sprintf("fresh%d.conf", i))
		pan := panicSafe(func() {
			if err := configfile.Create(f, append([]byte{}, pw...), false, 10, "verif", i%2 == 0, false, nil); err != nil {
				c.Violate("create", "not created: %s", err)
				return
			}
			get := func() *RefConf {
				js, err := os.ReadFile(f)
				must(err)
				var rc RefConf
				must(json.Unmarshal(js, &rc))
				return &rc
			}
			rc := get()
			fresh(fmt.Sprintf("the salt of configuration %d", i), rc.ScryptObject.Salt)
			if len(rc.EncryptedKey) > 16 {
				fresh(fmt.Sprintf("the nonce of configuration %d", i), rc.EncryptedKey[:16])
			}
			k, cf, err := configfile.LoadAndDecrypt(f, append([]byte{}, pw...))
			if err != nil {
				c.Violate("create", "the created configuration does not unlock: %s", err)
				return
			}
			fresh(fmt.Sprintf("the master key of configuration %d", i), k)
			mk := append([]byte{}, k...)
			// the key that is handed out belongs to the caller
			for j := range k {
				k[j] = 0
			}
			k2, err := cf.DecryptMasterKey(append([]byte{}, pw...))
			if err != nil || !bytes.Equal(k2, mk) {
				c.Violate("key-shared", "after the caller wiped the master key he was given, unlocking again gives another one (%v)", err)
				return
			}
			// a new wrapping, of a key the caller keeps
			cf.EncryptKey(k2, append([]byte{}, pw...), 10)
			if !bytes.Equal(k2, mk) {
				c.Violate("key-modified", "wrapping the master key changes the caller's key")
			}
			fresh(fmt.Sprintf("the salt of configuration %d, wrapped again", i), cf.ScryptObject.Salt)
			if len(cf.EncryptedKey) > 16 {
				fresh(fmt.Sprintf("the nonce of configuration %d, wrapped again", i), cf.EncryptedKey[:16])
			}
		})
		if pan != "" {
			c.Violate("panic", "creating a configuration: %s", pan)
		}
		_ = os.Remove(f)
	}
}
