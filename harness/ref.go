package main

// An independent gocryptfs encoder/decoder. It shares no code with /repo: only the
// block primitives (AES, SHA, scrypt, EME) come from libraries.

import (
	"bytes"
	"crypto/aes"
	"crypto/cipher"
	"crypto/hmac"
	"crypto/sha256"
	"crypto/sha512"
	"encoding/base64"
	"encoding/binary"
	"encoding/json"
	"errors"
	"math/rand"
	"time"

	"github.com/rfjakob/eme"
	"golang.org/x/crypto/scrypt"
)

const (
	refBS     = 4096
	refOvh    = 32
	refCBS    = refBS + refOvh
	refHdrLen = 18
)

func refHKDF(key []byte, info string, n int) []byte {
	ext := hmac.New(sha256.New, make([]byte, 32))
	ext.Write(key)
	prk := ext.Sum(nil)
	var out, t []byte
	for i := byte(1); len(out) < n; i++ {
		h := hmac.New(sha256.New, prk)
		h.Write(t)
		h.Write([]byte(info))
		h.Write([]byte{i})
		t = h.Sum(nil)
		out = append(out, t...)
	}
	return out[:n]
}

// ---- RFC 5297 AES-SIV ----

func sivDbl(b []byte) []byte {
	o := make([]byte, 16)
	var c byte
	for i := 15; i >= 0; i-- {
		o[i] = b[i]<<1 | c
		c = b[i] >> 7
	}
	if c != 0 {
		o[15] ^= 0x87
	}
	return o
}

func sivCMAC(bc cipher.Block, msg []byte) []byte {
	l := make([]byte, 16)
	bc.Encrypt(l, l)
	k1 := sivDbl(l)
	k2 := sivDbl(k1)
	n := (len(msg) + 15) / 16
	var last [16]byte
	if n == 0 || len(msg)%16 != 0 {
		if n == 0 {
			n = 1
		}
		rem := msg[(n-1)*16:]
		copy(last[:], rem)
		last[len(rem)] = 0x80
		for i := range last {
			last[i] ^= k2[i]
		}
	} else {
		copy(last[:], msg[(n-1)*16:])
		for i := range last {
			last[i] ^= k1[i]
		}
	}
	x := make([]byte, 16)
	for i := 0; i < n-1; i++ {
		for j := 0; j < 16; j++ {
			x[j] ^= msg[i*16+j]
		}
		bc.Encrypt(x, x)
	}
	for j := 0; j < 16; j++ {
		x[j] ^= last[j]
	}
	bc.Encrypt(x, x)
	return x
}

func sivS2V(mac cipher.Block, ad [][]byte, pt []byte) []byte {
	d := sivCMAC(mac, make([]byte, 16))
	for _, a := range ad {
		d = sivDbl(d)
		m := sivCMAC(mac, a)
		for i := range d {
			d[i] ^= m[i]
		}
	}
	var t []byte
	if len(pt) >= 16 {
		t = append([]byte{}, pt...)
		off := len(t) - 16
		for i := range d {
			t[off+i] ^= d[i]
		}
	} else {
		d = sivDbl(d)
		t = make([]byte, 16)
		copy(t, pt)
		t[len(pt)] = 0x80
		for i := range t {
			t[i] ^= d[i]
		}
	}
	return sivCMAC(mac, t)
}

func sivCTR(ctr cipher.Block, v, in []byte) []byte {
	q := append([]byte{}, v...)
	q[8] &= 0x7f
	q[12] &= 0x7f
	out := make([]byte, len(in))
	cipher.NewCTR(ctr, q).XORKeyStream(out, in)
	return out
}

// refSIVSeal: key of 32, 48 or 64 bytes.
func refSIVSeal(key, nonce, pt, ad []byte) []byte {
	mac, _ := aes.NewCipher(key[:len(key)/2])
	ctr, _ := aes.NewCipher(key[len(key)/2:])
	v := sivS2V(mac, [][]byte{ad, nonce}, pt)
	return append(v, sivCTR(ctr, v, pt)...)
}

func refSIVOpen(key, nonce, ct, ad []byte) ([]byte, error) {
	if len(ct) < 16 {
		return nil, errors.New("short")
	}
	mac, _ := aes.NewCipher(key[:len(key)/2])
	ctr, _ := aes.NewCipher(key[len(key)/2:])
	pt := sivCTR(ctr, ct[:16], ct[16:])
	if !bytes.Equal(sivS2V(mac, [][]byte{ad, nonce}, pt), ct[:16]) {
		return nil, errors.New("auth")
	}
	return pt, nil
}

// ---- keys ----

type VolCfg struct {
	HKDF      bool
	Raw64     bool
	LongNames bool
	SIV       bool
}

type RefCrypto struct {
	cfg    VolCfg
	gcm    cipher.AEAD
	sivKey []byte
	emeC   *eme.EMECipher
	b64    *base64.Encoding
}

func newRefCrypto(master []byte, cfg VolCfg) *RefCrypto {
	r := &RefCrypto{cfg: cfg, b64: base64.URLEncoding}
	if cfg.Raw64 {
		r.b64 = base64.RawURLEncoding
	}
	emeKey, gcmKey := master, master
	s := sha512.Sum512(master)
	r.sivKey = s[:]
	if cfg.HKDF {
		emeKey = refHKDF(master, "EME filename encryption", 32)
		gcmKey = refHKDF(master, "AES-GCM file content encryption", 32)
		r.sivKey = refHKDF(master, "AES-SIV file content encryption", 64)
	}
	bc, _ := aes.NewCipher(emeKey)
	r.emeC = eme.New(bc)
	bc, _ = aes.NewCipher(gcmKey)
	r.gcm, _ = cipher.NewGCMWithNonceSize(bc, 16)
	return r
}

func refAD(blockNo uint64, id []byte) []byte {
	ad := make([]byte, 8)
	binary.BigEndian.PutUint64(ad, blockNo)
	return append(ad, id...)
}

func (r *RefCrypto) sealBlock(nonce, pt []byte, no uint64, id []byte) []byte {
	out := append([]byte{}, nonce...)
	if r.cfg.SIV {
		return append(out, refSIVSeal(r.sivKey, nonce, pt, refAD(no, id))...)
	}
	return r.gcm.Seal(out, nonce, pt, refAD(no, id))
}

var errRef = errors.New("reference: does not authenticate")

func (r *RefCrypto) openBlock(ct []byte, no uint64, id []byte) ([]byte, error) {
	if len(ct) == refCBS && bytes.Equal(ct, make([]byte, refCBS)) {
		return make([]byte, refBS), nil
	}
	if len(ct) < refOvh {
		return nil, errRef
	}
	if bytes.Equal(ct[:16], make([]byte, 16)) {
		return nil, errRef
	}
	if r.cfg.SIV {
		return refSIVOpen(r.sivKey, ct[:16], ct[16:], refAD(no, id))
	}
	return r.gcm.Open(nil, ct[:16], ct[16:], refAD(no, id))
}

// encryptFile: holes lists block numbers to store as all-zero ciphertext (their
// plaintext must be zero and the block full).
func (r *RefCrypto) encryptFile(rnd *rand.Rand, pt []byte, id []byte, holes map[int]bool) []byte {
	if len(pt) == 0 {
		return nil
	}
	out := []byte{0, 2}
	out = append(out, id...)
	for i, n := 0, 0; i < len(pt); i, n = i+refBS, n+1 {
		end := min(i+refBS, len(pt))
		if holes[n] && end-i == refBS {
			out = append(out, make([]byte, refCBS)...)
			continue
		}
		out = append(out, r.sealBlock(randBytes(rnd, 16), pt[i:end], uint64(n), id)...)
	}
	return out
}

// decryptFile is the oracle for reads of arbitrary ciphertext. lax is set where
// gocryptfs and the proxy may legitimately differ (a file too short to hold any
// plaintext: empty or an error are both acceptable, data is not).
func (r *RefCrypto) decryptFile(ct []byte) (pt []byte, ok bool, lax bool) {
	if len(ct) == 0 {
		return nil, true, false
	}
	if len(ct) <= refHdrLen {
		return nil, len(ct) == refHdrLen, true
	}
	if len(ct) <= refHdrLen+refOvh {
		return nil, false, len(ct) == refHdrLen+refOvh
	}
	if ct[0] != 0 || ct[1] != 2 {
		return nil, false, false
	}
	id := ct[2:18]
	if bytes.Equal(id, make([]byte, 16)) {
		return nil, false, false
	}
	body := ct[18:]
	for n := uint64(0); len(body) > 0; n++ {
		k := min(refCBS, len(body))
		p, err := r.openBlock(body[:k], n, id)
		if err != nil {
			return nil, false, false
		}
		pt = append(pt, p...)
		body = body[k:]
	}
	return pt, true, false
}

func (r *RefCrypto) encryptName(name string, iv []byte) string {
	pad := 16 - len(name)%16
	b := append([]byte(name), bytes.Repeat([]byte{byte(pad)}, pad)...)
	return r.b64.EncodeToString(r.emeC.Encrypt(iv, b))
}

// encryptRawName encrypts arbitrary bytes (multiple of 16) without padding them.
func (r *RefCrypto) encryptRawName(b, iv []byte) string {
	return r.b64.EncodeToString(r.emeC.Encrypt(iv, b))
}

// decryptName: ok=false if gocryptfs would not accept the name.
func (r *RefCrypto) decryptName(c string, iv []byte) (string, bool) {
	b, err := r.b64.DecodeString(c)
	if err != nil || len(b) == 0 || len(b)%16 != 0 || len(b) > 2048 || len(iv) != 16 {
		return "", false
	}
	b = r.emeC.Decrypt(iv, b)
	p := int(b[len(b)-1])
	if p == 0 || p > 16 || p >= len(b) {
		return "", false
	}
	for _, x := range b[len(b)-p:] {
		if int(x) != p {
			return "", false
		}
	}
	n := string(b[:len(b)-p])
	if n == "." || n == ".." || bytes.ContainsAny([]byte(n), "/\x00") {
		return "", false
	}
	return n, true
}

func (r *RefCrypto) hashLongName(cname string) string {
	h := sha256.Sum256([]byte(cname))
	return "gocryptfs.longname." + r.b64.EncodeToString(h[:])
}

// ---- config file ----

type RefScrypt struct {
	Salt   []byte
	N      int
	R      int
	P      int
	KeyLen int
}

type RefConf struct {
	Creator      string
	EncryptedKey []byte
	ScryptObject RefScrypt
	Version      int
	FeatureFlags []string
}

func (c *RefConf) clone() *RefConf {
	d := *c
	d.EncryptedKey = append([]byte{}, c.EncryptedKey...)
	d.ScryptObject.Salt = append([]byte{}, c.ScryptObject.Salt...)
	d.FeatureFlags = append([]string{}, c.FeatureFlags...)
	return &d
}

func (c *RefConf) JSON() []byte {
	b, _ := json.MarshalIndent(c, "", "\t")
	return append(b, '\n')
}

func (c *RefConf) has(f string) bool {
	for _, x := range c.FeatureFlags {
		if x == f {
			return true
		}
	}
	return false
}

func (v VolCfg) flags() []string {
	f := []string{"GCMIV128", "DirIV", "EMENames"}
	if v.HKDF {
		f = append(f, "HKDF")
	}
	if v.LongNames {
		f = append(f, "LongNames")
	}
	if v.Raw64 {
		f = append(f, "Raw64")
	}
	if v.SIV {
		f = append(f, "AESSIV")
	}
	return f
}

func refWrap(hash, nonce, key []byte, hkdf bool) []byte {
	k := hash
	if hkdf {
		k = refHKDF(hash, "AES-GCM file content encryption", 32)
	}
	bc, _ := aes.NewCipher(k)
	g, _ := cipher.NewGCMWithNonceSize(bc, len(nonce))
	return g.Seal(append([]byte{}, nonce...), nonce, key, make([]byte, 8))
}

func refMakeConf(rnd *rand.Rand, master, password []byte, cfg VolCfg, logN int) *RefConf {
	c := &RefConf{Creator: "verif", Version: 2, FeatureFlags: cfg.flags()}
	c.ScryptObject = RefScrypt{Salt: randBytes(rnd, 32), N: 1 << uint(logN), R: 8, P: 1, KeyLen: 32}
	hash, err := scrypt.Key(password, c.ScryptObject.Salt, c.ScryptObject.N, 8, 1, 32)
	if err != nil {
		panic(err)
	}
	n := 12
	if cfg.HKDF {
		n = 16
	}
	c.EncryptedKey = refWrap(hash, randBytes(rnd, n), master, cfg.HKDF)
	return c
}

// refUnwrap is the independent unlocking oracle.
func refUnwrap(c *RefConf, password []byte) ([]byte, error) {
	s := c.ScryptObject
	hash, err := scrypt.Key(password, s.Salt, s.N, s.R, s.P, s.KeyLen)
	if err != nil {
		return nil, err
	}
	k, n := hash, 12
	if c.has("HKDF") {
		k, n = refHKDF(hash, "AES-GCM file content encryption", 32), 16
	}
	if len(c.EncryptedKey) < n+16 {
		return nil, errRef
	}
	bc, err := aes.NewCipher(k)
	if err != nil {
		return nil, err
	}
	g, _ := cipher.NewGCMWithNonceSize(bc, n)
	return g.Open(nil, c.EncryptedKey[:n], c.EncryptedKey[n:], make([]byte, 8))
}

func randBytes(r *rand.Rand, n int) []byte {
	b := make([]byte, n)
	r.Read(b)
	return b
}

func sivCiphers(key []byte) (mac, ctr cipher.Block) {
	mac, _ = aes.NewCipher(key[:len(key)/2])
	ctr, _ = aes.NewCipher(key[len(key)/2:])
	return
}

func refWrapWith(rnd *rand.Rand, c *RefConf, n, r, p int, pw, master []byte, hkdf bool) []byte {
	hash, err := scrypt.Key(pw, c.ScryptObject.Salt, n, r, p, 32)
	if err != nil {
		panic(err)
	}
	k := 12
	if hkdf {
		k = 16
	}
	return refWrap(hash, randBytes(rnd, k), master, hkdf)
}

var mtime0 = time.Unix(1000000000, 0)
