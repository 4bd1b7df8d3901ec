package main

import (
	"bytes"
	"encoding/base64"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"path"
	"path/filepath"
	"strings"
	"time"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
)

func init() {
	register("C22", &Check{Run: runC22})
	subcommands["unlock"] = unlockHelper
}

// c22World is one volume with one file, used to tell a usable tree from a refusal.
type c22World struct {
	v    *Volume
	fs   *MemFS
	file *Node
	conf string // path of gocryptfs.conf at the remote
}

func newC22World(r *rand.Rand, cfg VolCfg, pw []byte, logN int) *c22World {
	v := newVolume(r, cfg, "/enc")
	v.Password = pw
	v.Conf = refMakeConf(r, v.Master, pw, cfg, logN)
	d := v.Mkdir(v.Root, "some directory")
	f := v.File(d, "a file", randBytes(r, 9000), nil)
	fs := newMemFS()
	fs.record = false
	fs.Load(v)
	return &c22World{v, fs, f, "/enc/gocryptfs.conf"}
}

func (w *c22World) setConf(js []byte) { w.fs.put(w.conf, js, 0400, w.v.Root.MTime) }

// unlock opens the tree; usable tells whether the volume's file can be read from it.
func (w *c22World) unlock(pw []byte) (usable bool, tree bool, err error, pan string) {
	pan = panicSafe(func() {
		var ft *filetree.FileTree
		ft, err = filetree.Init(w.v.RootPath, append([]byte{}, pw...), 2, w.fs)
		if err != nil || ft == nil {
			tree = ft != nil
			return
		}
		tree = true
		b, e := ft.ReadFile(w.file.Path)
		if e == nil && bytes.Equal(b, w.file.PT) {
			usable = true
		} else if e != nil {
			err = fmt.Errorf("tree opened, read failed: %s", e)
		} else {
			err = fmt.Errorf("tree opened, read returned other data: %s", diffDesc(b, w.file.PT))
		}
	})
	return
}

// masterKey asks the configuration library for the key.
func masterKey(dir string, js, pw []byte) (key []byte, err error, pan string) {
	f := filepath.Join(dir, "some.conf")
	_ = os.Remove(f)
	must(os.WriteFile(f, js, 0600))
	pan = panicSafe(func() { key, _, err = configfile.LoadAndDecrypt(f, append([]byte{}, pw...)) })
	return
}

// unlockHelper DIR: opens the configuration in DIR/conf with the password in DIR/pw and
// writes the outcome to DIR/out. Used where the code may end the process.
func unlockHelper(a []string) {
	dir := a[0]
	js, err := os.ReadFile(filepath.Join(dir, "conf"))
	must(err)
	pw, err := os.ReadFile(filepath.Join(dir, "pw"))
	must(err)
	fs := newMemFS()
	fs.mkdir("/", 0755, mtime0)
	fs.mkdir("/enc", 0755, mtime0)
	fs.put("/enc/gocryptfs.conf", js, 0400, mtime0)
	out := "refused"
	if os.Getenv("VH_LIB") != "" {
		key, _, err := configfile.LoadAndDecrypt(filepath.Join(dir, "conf"), pw)
		if err == nil {
			out = fmt.Sprintf("key %x", key)
		}
	} else {
		ft, err := filetree.Init("/enc", pw, 1, fs)
		if err == nil && ft != nil {
			out = "tree"
		}
	}
	must(os.WriteFile(filepath.Join(dir, "out"), []byte(out), 0600))
}

// unlockOutside: "tree", "key <hex>" or "refused" (which includes the process ending).
func unlockOutside(c *Ctx, js, pw []byte, lib bool) string {
	dir, err := os.MkdirTemp(c.Dir, "u")
	must(err)
	defer os.RemoveAll(dir)
	must(os.WriteFile(filepath.Join(dir, "conf"), js, 0600))
	must(os.WriteFile(filepath.Join(dir, "pw"), pw, 0600))
	tmp := filepath.Join(dir, "tmp")
	must(os.Mkdir(tmp, 0700))
	cmd := exec.Command(os.Args[0], "unlock", dir)
	cmd.Env = append(os.Environ(), "TMPDIR="+tmp)
	if lib {
		cmd.Env = append(cmd.Env, "VH_LIB=1")
	}
	_ = cmd.Run()
	b, err := os.ReadFile(filepath.Join(dir, "out"))
	if err != nil {
		return "refused"
	}
	return string(b)
}

func randPassword(r *rand.Rand) []byte {
	switch r.Intn(7) {
	case 0:
		return []byte{byte(1 + r.Intn(255))}
	case 1:
		return append([]byte("line\n"), randBytes(r, 3)[0]|1)
	case 2:
		return []byte("пароль " + fmt.Sprint(r.Intn(1000)))
	case 3:
		return []byte(strings.Repeat(fmt.Sprintf("long%d", r.Intn(100)), 12))
	case 4:
		b := randBytes(r, 20)
		b[19] |= 1
		return b
	case 5:
		return []byte(" " + fmt.Sprint(r.Intn(10000)) + " ")
	}
	return []byte(fmt.Sprintf("Passw%x", randBytes(r, 5)))
}

// wrongPasswords near the right one. PBKDF2 pads the password with NULs and hashes
// passwords of more than 64 bytes, so those variants would really be equivalent.
func wrongPasswords(r *rand.Rand, pw []byte) [][]byte {
	mod := func(f func(b []byte) []byte) []byte { return f(append([]byte{}, pw...)) }
	l := [][]byte{
		{},
		mod(func(b []byte) []byte { return append(b, '\n') }),
		mod(func(b []byte) []byte { return append(b, ' ') }),
		mod(func(b []byte) []byte { return append([]byte(" "), b...) }),
		mod(func(b []byte) []byte { b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8)); return b }),
		mod(func(b []byte) []byte { b[len(b)-1] ^= 1; return b }),
		mod(func(b []byte) []byte { b[0] ^= 0x20; return b }),
		bytes.TrimSpace(pw),
		bytes.ToLower(pw), bytes.ToUpper(pw),
		append(append([]byte{}, pw...), pw...),
		[]byte("test"), []byte("x"), []byte("\n"), []byte("\x00"),
	}
	if len(pw) > 1 {
		l = append(l, pw[:len(pw)-1], pw[1:], pw[:len(pw)/2])
	}
	var out [][]byte
	for _, x := range l {
		if !samePBKDF(x, pw) {
			out = append(out, append([]byte{}, x...))
		}
	}
	return out
}

func samePBKDF(a, b []byte) bool {
	if len(a) > 64 || len(b) > 64 {
		return bytes.Equal(a, b)
	}
	return bytes.Equal(bytes.TrimRight(a, "\x00"), bytes.TrimRight(b, "\x00"))
}

func runC22(c *Ctx) {
	c.Rule("one case = one (configuration, password) pair given to LoadAndDecrypt and to the file tree, compared with an independent scrypt/HKDF/GCM unwrapping; distinct = distinct (kind of change, position, feature flags)")
	c.Assume("the reference key wrapping (scrypt, HKDF, GCM from library primitives) is right; it is cross-checked against the repository's own sample configuration on every run",
		"key-derivation cost above the minimum is only sampled up to N=2^12, R=16, P=3")
	for _, k := range []string{"right", "wrong_password", "tampered_key", "tampered_salt", "tampered_kdf", "version", "flags_unknown", "flags_missing", "below_minimum", "harmless", "created"} {
		c.Need(k, 3)
	}
	// the reference agrees with a configuration made by gocryptfs itself
	if js, err := os.ReadFile("/repo/gocrypt/configfile/config_test/v2.conf"); err == nil {
		var rc RefConf
		must(json.Unmarshal(js, &rc))
		if _, err := refUnwrap(&rc, []byte("test")); err != nil {
			c.Inconclusive("the reference does not unlock the sample configuration: %s", err)
			return
		}
	}
	for i := 0; i < c.N(32, 900) && !c.Stopped(); i++ {
		c22Volume(c, c.Rand("vol", i), i)
	}
	for i := 0; i < c.N(6, 60) && !c.Stopped(); i++ {
		c22Create(c, c.Rand("create", i), i)
	}
	for i := 0; i < c.N(3, 30) && !c.Stopped(); i++ {
		c22Program(c, c.Rand("program", i), i)
	}
	c.Need("program_refuses", 20)
	c.Need("program_serves", 3)
	for i := 0; i < c.N(3, 40) && !c.Stopped(); i++ {
		c22Params(c, c.Rand("params", i), i)
	}
}

func c22Volume(c *Ctx, r *rand.Rand, i int) {
	cfg := cfgAll[i%16]
	pw := randPassword(r)
	w := newC22World(r, cfg, pw, 10+r.Intn(2))
	good := w.v.Conf
	id := fmt.Sprintf("volume %d (%+v, password %q)", i, cfg, pw)

	accept := func(kind string, js []byte, why string) {
		c.Current([]string{id, kind, why, string(js)})
		c.Eval(fmt.Sprint(kind, why, cfg))
		c.Count(kind, 1)
		key, err, pan := masterKey(c.Dir, js, pw)
		if pan != "" || err != nil || !bytes.Equal(key, w.v.Master) {
			c.Violate("right-password", "%s, %s: the right password gives key %x, error %v, want %x %s\n%s", id, why, key, err, w.v.Master, pan, js)
			return
		}
		w.setConf(js)
		usable, _, err, pan := w.unlock(pw)
		if !usable {
			c.Violate("right-password", "%s, %s: the file tree cannot be used with the right password: %v %s\n%s", id, why, err, pan, js)
		}
	}
	refuse := func(kind string, js []byte, p []byte, why string) {
		c.Current([]string{id, kind, why, string(js), string(p)})
		c.Eval(fmt.Sprint(kind, why, cfg))
		c.Count(kind, 1)
		key, err, pan := masterKey(c.Dir, js, p)
		// without a password LoadAndDecrypt is documented to return the parsed
		// configuration and no key
		if pan != "" {
			c.Violate("refusal-panic", "%s, %s (password %q): the configuration library panics instead of refusing: %s\n%s", id, why, p, pan, js)
			return
		}
		if len(key) > 0 || (err == nil && len(p) > 0) {
			c.Violate("wrongly-unlocked", "%s, %s (password %q): the configuration library returns key %x, error %v\n%s", id, why, p, key, err, js)
			return
		}
		w.setConf(js)
		_, tree, err, pan := w.unlock(p)
		if pan != "" {
			c.Violate("refusal-panic", "%s, %s (password %q): opening the file tree panics instead of refusing: %s\n%s", id, why, p, pan, js)
		} else if tree {
			c.Violate("wrongly-unlocked", "%s, %s (password %q): a file tree is opened (%v)\n%s", id, why, p, err, js)
		}
	}
	mod := func(f func(*RefConf)) []byte { d := good.clone(); f(d); return d.JSON() }

	accept("right", good.JSON(), "unchanged")
	if i < 2 {
		c.Sample(map[string]string{"volume": id, "conf": string(good.JSON())})
	}
	for _, p := range wrongPasswords(r, pw) {
		refuse("wrong_password", good.JSON(), p, "wrong password "+fmt.Sprintf("%d bytes", len(p)))
	}
	// harmless changes
	accept("harmless", mod(func(d *RefConf) { d.Creator = "someone else" }), "other creator")
	accept("harmless", mod(func(d *RefConf) {
		r.Shuffle(len(d.FeatureFlags), func(i, j int) { d.FeatureFlags[i], d.FeatureFlags[j] = d.FeatureFlags[j], d.FeatureFlags[i] })
	}), "flags in another order")
	// wrapped key
	n := len(good.EncryptedKey)
	for _, k := range []int{0, n - 1, n - 16, 12, 16, r.Intn(n), r.Intn(n)} {
		b := r.Intn(8)
		refuse("tampered_key", mod(func(d *RefConf) { d.EncryptedKey[k] ^= 1 << uint(b) }), pw, fmt.Sprintf("wrapped key bit %d.%d flipped", k, b))
	}
	for _, k := range []int{0, 1, 11, 12, 15, 16, 17, 27, 28, 31, 32, 33, n - 1, r.Intn(n)} {
		refuse("tampered_key", mod(func(d *RefConf) { d.EncryptedKey = d.EncryptedKey[:k] }), pw, fmt.Sprintf("wrapped key cut to %d bytes", k))
	}
	refuse("tampered_key", mod(func(d *RefConf) { d.EncryptedKey = append(d.EncryptedKey, 0) }), pw, "wrapped key extended")
	refuse("tampered_key", mod(func(d *RefConf) { d.EncryptedKey = append([]byte{0}, d.EncryptedKey...) }), pw, "wrapped key prefixed")
	for _, k := range []int{n, 4096 + 28, 4096 + 32, 4096, 32, 28} {
		refuse("tampered_key", mod(func(d *RefConf) { d.EncryptedKey = make([]byte, k) }), pw, fmt.Sprintf("wrapped key of %d zero bytes", k))
		refuse("tampered_key", mod(func(d *RefConf) { d.EncryptedKey = make([]byte, k) }), []byte("any"), fmt.Sprintf("wrapped key of %d zero bytes, wrong password", k))
	}
	refuse("tampered_key", mod(func(d *RefConf) { copy(d.EncryptedKey, make([]byte, 16)) }), pw, "zero nonce")
	other := refMakeConf(r, randBytes(r, 32), []byte("another"), cfg, 10)
	refuse("tampered_key", mod(func(d *RefConf) { d.EncryptedKey = other.EncryptedKey }), pw, "wrapped key of another volume")
	// salt
	for k := 0; k < 4; k++ {
		p := []int{0, 31, r.Intn(32), r.Intn(32)}[k]
		refuse("tampered_salt", mod(func(d *RefConf) { d.ScryptObject.Salt[p] ^= 1 << uint(r.Intn(8)) }), pw, fmt.Sprintf("salt byte %d changed", p))
	}
	refuse("tampered_salt", mod(func(d *RefConf) { d.ScryptObject.Salt = append(d.ScryptObject.Salt, 0) }), pw, "salt extended")
	refuse("tampered_salt", mod(func(d *RefConf) { d.ScryptObject.Salt = other.ScryptObject.Salt }), pw, "salt of another volume")
	// key derivation parameters, still above the minimum
	refuse("tampered_kdf", mod(func(d *RefConf) { d.ScryptObject.N *= 2 }), pw, "N doubled")
	refuse("tampered_kdf", mod(func(d *RefConf) { d.ScryptObject.R = 9 + r.Intn(8) }), pw, "larger R")
	refuse("tampered_kdf", mod(func(d *RefConf) { d.ScryptObject.P = 2 + r.Intn(2) }), pw, "larger P")
	// version
	for _, ver := range []int{0, 1, 3, 4, 65535, 2 + 256, -2, 2 + 65536} {
		refuse("version", mod(func(d *RefConf) { d.Version = ver }), pw, fmt.Sprintf("version %d", ver))
	}
	// an unknown flag behind many others
	for _, reps := range []int{1, 2 + r.Intn(3), 8, 40} {
		refuse("flags_unknown", mod(func(d *RefConf) {
			var l []string
			for k := 0; k < reps; k++ {
				l = append(l, good.FeatureFlags...)
			}
			d.FeatureFlags = append(l, "StrangeFeature")
		}), pw, fmt.Sprintf("an unknown flag after %d repetitions of the others", reps))
	}
	// feature flags
	for _, f := range []string{"StrangeFeature", "hkdf", "HKDF ", "", "GCMIV96", "XChaCha20Poly1305", "LongNameMax", "FIDO2", "raw64", "AESSIV2", fmt.Sprintf("F%x", randBytes(r, 3))} {
		pos := r.Intn(len(good.FeatureFlags) + 1)
		refuse("flags_unknown", mod(func(d *RefConf) {
			d.FeatureFlags = append(d.FeatureFlags[:pos], append([]string{f}, d.FeatureFlags[pos:]...)...)
		}), pw, fmt.Sprintf("unknown flag %q", f))
	}
	for _, f := range []string{"GCMIV128", "DirIV", "EMENames"} {
		refuse("flags_missing", mod(func(d *RefConf) { d.FeatureFlags = without(d.FeatureFlags, f) }), pw, "without "+f)
	}
	refuse("flags_missing", mod(func(d *RefConf) { d.FeatureFlags = nil }), pw, "without any flag")
	refuse("flags_missing", mod(func(d *RefConf) { d.FeatureFlags = []string{"PlaintextNames"} }), pw, "plaintext names without GCMIV128")
	// toggling HKDF changes the wrapping
	refuse("tampered_kdf", mod(func(d *RefConf) {
		if d.has("HKDF") {
			d.FeatureFlags = without(d.FeatureFlags, "HKDF")
		} else {
			d.FeatureFlags = append(d.FeatureFlags, "HKDF")
		}
	}), pw, "HKDF toggled")
	// not a configuration at all
	for k, js := range [][]byte{{}, []byte("{}"), []byte("null"), []byte("[]"), []byte("x"), good.JSON()[:len(good.JSON())/2], make([]byte, 300), []byte(`{"Version":2,"FeatureFlags":["GCMIV128","DirIV","EMENames"]`)} {
		refuse("malformed", js, pw, fmt.Sprintf("malformed file %d", k))
	}
	// a volume with plaintext names cannot be shown: it must not be opened and misread
	pn := good.clone()
	pn.FeatureFlags = []string{"GCMIV128", "PlaintextNames"}
	if cfg.HKDF {
		pn.FeatureFlags = append(pn.FeatureFlags, "HKDF")
	}
	c.Eval("plaintextnames" + fmt.Sprint(cfg))
	c.Count("plaintext_names", 1)
	fs := newMemFS()
	fs.mkdir("/", 0755, mtime0)
	fs.mkdir("/enc", 0755, mtime0)
	fs.put("/enc/gocryptfs.conf", pn.JSON(), 0400, mtime0)
	fs.put("/enc/file.txt", w.file.CT, 0644, mtime0)
	pan := panicSafe(func() {
		ft, err := filetree.Init("/enc", append([]byte{}, pw...), 1, fs)
		if err != nil || ft == nil {
			return
		}
		b, e := ft.ReadFile("/file.txt")
		l, le := ft.ReadDir("/")
		if e != nil || !bytes.Equal(b, w.file.PT) || le != nil || len(l) != 1 || l[0].Name() != "file.txt" {
			c.Violate("flag-not-honoured", "%s: a volume with the PlaintextNames flag is opened, but its names are not treated as plaintext: read %v, listing %v", id, e, le)
		}
	})
	if pan != "" {
		c.Violate("refusal-panic", "%s: opening a PlaintextNames volume panics: %s", id, pan)
	}
	// a wrapped key of the wrong length, correctly wrapped
	for _, kl := range []int{0, 16, 31, 33, 64} {
		js := mod(func(d *RefConf) {
			x := refMakeConf(r, randBytes(r, kl), pw, cfg, 10)
			d.EncryptedKey, d.ScryptObject = x.EncryptedKey, x.ScryptObject
		})
		w.setConf(js)
		c.Eval(fmt.Sprint("keylen", kl, cfg))
		c.Count("wrong_key_length", 1)
		_, tree, err, pan := w.unlock(pw)
		if tree || pan != "" {
			c.Violate("wrongly-unlocked", "%s: a wrapped key of %d bytes opens a tree (%v) or panics: %s", id, kl, err, pan)
		}
	}
	accept("right", good.JSON(), "unchanged, after all refusals")
}

func without(l []string, x string) (out []string) {
	for _, s := range l {
		if s != x {
			out = append(out, s)
		}
	}
	return
}

// c22Create: configurations written by the code itself.
func c22Create(c *Ctx, r *rand.Rand, i int) {
	f := filepath.Join(c.Dir, fmt.Sprintf("created%d.conf", i))
	pw, pw2 := randPassword(r), randPassword(r)
	for samePBKDF(pw, pw2) {
		pw2 = randPassword(r)
	}
	plain, siv, dev, logN := r.Intn(3) == 0, r.Intn(2) == 0, r.Intn(4) == 0, 10+r.Intn(4)
	c.Eval(fmt.Sprint("create", plain, siv, dev, i))
	c.Count("created", 1)
	fail := func(format string, a ...interface{}) {
		c.Violate("create", "created configuration %d (plaintextnames %v, aessiv %v): %s", i, plain, siv, fmt.Sprintf(format, a...))
	}
	pan := panicSafe(func() {
		if err := configfile.Create(f, append([]byte{}, pw...), plain, logN, "verif", siv, dev, nil); err != nil {
			fail("not written: %s", err)
			return
		}
		read := func() *RefConf {
			js, err := os.ReadFile(f)
			must(err)
			var rc RefConf
			if err := json.Unmarshal(js, &rc); err != nil {
				fail("not JSON: %s", err)
				return nil
			}
			return &rc
		}
		rc := read()
		if rc == nil {
			return
		}
		if rc.has("PlaintextNames") != plain || rc.has("AESSIV") != siv || !rc.has("HKDF") || !rc.has("GCMIV128") || rc.Version != 2 {
			fail("wrong flags or version: %+v", rc)
		}
		for _, fl := range []string{"DirIV", "EMENames", "LongNames", "Raw64"} {
			if rc.has(fl) == plain {
				fail("flag %s: %v", fl, !plain)
			}
		}
		if rc.ScryptObject.N != 1<<uint(logN) {
			fail("N is %d, asked for 2^%d", rc.ScryptObject.N, logN)
		}
		if s := rc.ScryptObject; len(s.Salt) < 32 || s.N < 1024 || s.R < 8 || s.P < 1 || s.KeyLen != 32 {
			fail("weak parameters %+v", s)
			return
		}
		want, err := refUnwrap(rc, pw)
		if err != nil || len(want) != 32 || bytes.Equal(want, make([]byte, 32)) {
			fail("the reference finds key %x, %v", want, err)
			return
		}
		key, cf, err := configfile.LoadAndDecrypt(f, append([]byte{}, pw...))
		if err != nil || !bytes.Equal(key, want) {
			fail("own loading gives %x, %v, want %x", key, err, want)
			return
		}
		if k, _, err := configfile.LoadAndDecrypt(f, append([]byte{}, pw2...)); err == nil || len(k) > 0 {
			fail("unlocks with another password")
		}
		// change the password
		oldSalt := append([]byte{}, rc.ScryptObject.Salt...)
		cf.EncryptKey(append([]byte{}, want...), append([]byte{}, pw2...), 10)
		if err := cf.WriteFile(); err != nil {
			fail("changed configuration not written: %s", err)
			return
		}
		if rc = read(); rc == nil {
			return
		}
		if bytes.Equal(oldSalt, rc.ScryptObject.Salt) {
			fail("the salt is reused after a password change")
		}
		if k, err := refUnwrap(rc, pw2); err != nil || !bytes.Equal(k, want) {
			fail("after the password change the reference finds %x, %v", k, err)
		}
		if k, _, err := configfile.LoadAndDecrypt(f, append([]byte{}, pw2...)); err != nil || !bytes.Equal(k, want) {
			fail("after the password change own loading gives %x, %v", k, err)
		}
		if k, _, err := configfile.LoadAndDecrypt(f, append([]byte{}, pw...)); err == nil || len(k) > 0 {
			fail("after the password change the old password still unlocks")
		}
	})
	if pan != "" {
		fail("%s", pan)
	}
}

// c22Params: parameters below the minimum, in another process because they end it.
func c22Params(c *Ctx, r *rand.Rand, i int) {
	cfg := cfgAll[r.Intn(16)]
	pw := randPassword(r)
	type pc struct {
		what       string
		n, r, p, s int
		ok         bool
	}
	cases := []pc{
		{"minimum", 1024, 8, 1, 32, true},
		{"N 512", 512, 8, 1, 32, false}, {"N 2", 2, 8, 1, 32, false}, {"N 1023", 1023, 8, 1, 32, false},
		{"R 7", 1024, 7, 1, 32, false}, {"R 1", 1024, 1, 1, 32, false},
		{"salt 31", 1024, 8, 1, 31, false}, {"salt 16", 1024, 8, 1, 16, false}, {"salt 0", 1024, 8, 1, 0, false},
		{"P 0", 1024, 8, 0, 32, false},
		{"above", 2048, 16, 2, 40, true},
		// one below its minimum, the others far above
		{"R 4 P 2", 1024, 4, 2, 32, false}, {"R 1 P 8", 1024, 1, 8, 32, false}, {"R 2 P 16", 4096, 2, 16, 64, false}, {"R 7 N 2^15", 1 << 15, 7, 1, 32, false}, {"R 0", 1024, 0, 8, 32, false}, {"R -8", 1024, -8, 1, 32, false},
		{"N 512 R 16", 512, 16, 1, 32, false}, {"N 512 R 8 P 2", 512, 8, 2, 32, false}, {"N 2 R 64 P 64", 2, 64, 64, 64, false}, {"N 256 salt 64", 256, 8, 1, 64, false},
		{"salt 8 N 2^15", 1 << 15, 8, 1, 8, false}, {"salt 16 P 4", 1024, 8, 4, 16, false},
		{"P -1", 1024, 8, -1, 32, false}, {"P 0 R 32", 1024, 32, 0, 32, false},
	}
	for _, x := range cases {
		d := refMakeConf(r, randBytes(r, 32), pw, cfg, 10)
		master := randBytes(r, 32)
		d.ScryptObject = RefScrypt{Salt: randBytes(r, x.s), N: x.n, R: x.r, P: x.p, KeyLen: 32}
		// wrap under exactly these parameters where they are computable, so that only
		// the minimum stands between the configuration and a tree
		nn, pp := x.n, x.p
		if nn&(nn-1) != 0 {
			nn = 1024
		}
		rr := x.r
		if pp <= 0 {
			pp = 1
		}
		if rr <= 0 {
			rr = 1
		}
		d.EncryptedKey = refWrapWith(r, d, nn, rr, pp, pw, master, cfg.HKDF)
		for _, lib := range []bool{false, true} {
			c.Eval(fmt.Sprint("params", x.what, lib))
			if x.ok {
				c.Count("at_or_above_minimum", 1)
			} else {
				c.Count("below_minimum", 1)
			}
			got := unlockOutside(c, d.JSON(), pw, lib)
			want := "tree"
			if lib {
				want = fmt.Sprintf("key %x", master)
			}
			if x.ok && got != want {
				c.Violate("right-password", "parameters %s (%+v): %s, want %s", x.what, d.ScryptObject, got, want)
			}
			if !x.ok && got != "refused" {
				c.Violate("weak-parameters", "parameters %s (N=%d R=%d P=%d, %d bytes of salt) are accepted: %s", x.what, x.n, x.r, x.p, x.s, got)
			}
		}
	}
	// a shorter derived key
	for _, kl := range []int{16, 24, 31, 0} {
		d := refMakeConf(r, randBytes(r, 32), pw, cfg, 10)
		d.ScryptObject.KeyLen = kl
		c.Eval(fmt.Sprint("keylen", kl))
		c.Count("below_minimum", 1)
		if got := unlockOutside(c, d.JSON(), pw, false); got != "refused" {
			c.Violate("weak-parameters", "KeyLen %d is accepted: %s", kl, got)
		}
	}
}

// c22Program: the program itself serves a volume that can be unlocked and ends with an
// error, without ever listening, when it cannot be.
func c22Program(c *Ctx, r *rand.Rand, i int) {
	w := newWorld(c, r, nil)
	defer w.Close()
	confPath := path.Join(w.v.RootPath, "gocryptfs.conf")
	good, err := w.fs.ReadFile(confPath)
	must(err)
	run := func(what string, pw []byte, want string) {
		if c.Stopped() {
			return
		}
		c.Eval("program" + what)
		p := startProxy(c, []string{"-c", w.writeCfg()}, [][]byte{pw})
		if p == nil {
			return
		}
		defer p.Kill()
		got := p.await(60 * time.Second)
		switch {
		case got == "stuck":
			c.Inconclusive("%s: the program neither serves nor ends", what)
		case got != want:
			c.Violate("program", "%s: the program is %s (exit %d), want %s\n%s", what, got, p.exit, want, clip(p.err.String(), 1500))
		case got == "exited" && p.exit == 0:
			c.Violate("program", "%s: the program ends without an error status", what)
		case got == "exited":
			c.Count("program_refuses", 1)
		default:
			if pr, _ := w.service(r, 30*time.Second); pr != "" {
				c.Violate("program", "%s: started, but does not serve: %s", what, pr)
			}
			c.Count("program_serves", 1)
		}
	}
	set := func(js []byte) { w.fs.put(confPath, js, 0400, w.v.Root.MTime) }
	pw := w.v.Password
	run("the right password", pw, "listening")
	for k, bad := range [][]byte{append(append([]byte{}, pw...), 'x'), pw[:len(pw)-1], []byte("wrong"), {}} {
		if !samePBKDF(bad, pw) {
			run(fmt.Sprintf("wrong password %d", k), bad, "exited")
		}
	}
	var m map[string]interface{}
	edit := func(what string, f func()) {
		m = nil
		must(json.Unmarshal(good, &m))
		f()
		js, err := json.Marshal(m)
		must(err)
		set(js)
		run(what, pw, "exited")
		set(good)
	}
	edit("version 3", func() { m["Version"] = 3 })
	edit("an unknown flag", func() { m["FeatureFlags"] = append(m["FeatureFlags"].([]interface{}), "XChaCha") })
	edit("a mandatory flag missing", func() {
		var l []interface{}
		for _, x := range m["FeatureFlags"].([]interface{}) {
			if x != "DirIV" {
				l = append(l, x)
			}
		}
		m["FeatureFlags"] = l
	})
	edit("a changed key", func() {
		b, _ := base64.StdEncoding.DecodeString(m["EncryptedKey"].(string))
		b[r.Intn(len(b))] ^= 1 << uint(r.Intn(8))
		m["EncryptedKey"] = b
	})
	edit("no key", func() { delete(m, "EncryptedKey") })
	edit("a weak key derivation", func() { m["ScryptObject"].(map[string]interface{})["N"] = 512 })
	set(good[:len(good)/2])
	run("a truncated configuration", pw, "exited")
	set(nil)
	run("an empty configuration", pw, "exited")
	set(good)
	w.Remote["FileRoot"] = "/elsewhere"
	run("no volume at the configured root", pw, "exited")
	w.Remote["FileRoot"] = w.v.RootPath
	run("the configuration restored", pw, "listening")
}
