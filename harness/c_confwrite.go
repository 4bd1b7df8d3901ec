package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"os/exec"
	"os/signal"
	"path/filepath"
	"regexp"
	"runtime"
	"strconv"
	"strings"
	"sync"
	"syscall"
	"time"

	"github.com/flawedmatrix/gocryptsftp/gocrypt/configfile"
)

func init() {
	register("C23", &Check{Run: runC23, Level: "fault_enumeration"})
	subcommands["confwrite"] = confWriteHelper
}

const (
	markStart = "/vh-marker-start"
	markEnd   = "/vh-marker-end"
)

// confWriteHelper MODE DIR UMASK LIMIT CREATORLEN: writes the configuration DIR/d/gocryptfs.conf
// and reports the outcome in DIR/result.
func confWriteHelper(a []string) {
	runtime.LockOSThread()
	mode, dir := a[0], a[1]
	umask, _ := strconv.ParseInt(a[2], 8, 32)
	limit, _ := strconv.Atoi(a[3])
	creator, _ := strconv.Atoi(a[4])
	conf := filepath.Join(dir, "d", "gocryptfs.conf")
	if a[5] == "rel" {
		must(os.Chdir(filepath.Join(dir, "d")))
		conf = "gocryptfs.conf"
	}
	syscall.Umask(int(umask))
	var cf *configfile.ConfFile
	var key []byte
	if mode == "rewrap" {
		var err error
		key, cf, err = configfile.LoadAndDecrypt(conf, []byte("old password"))
		must(err)
	}
	if limit >= 0 {
		signal.Ignore(syscall.SIGXFSZ)
		must(syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: uint64(limit), Max: ^uint64(0)}))
	}
	_, _ = syscall.Open(markStart, syscall.O_RDONLY, 0)
	var err error
	switch mode {
	case "create":
		err = configfile.Create(conf, []byte("new password"), false, 10, strings.Repeat("c", creator), creator%2 == 1, false, nil)
	case "rewrap":
		cf.EncryptKey(key, []byte("new password"), 10)
		err = cf.WriteFile()
	}
	_, _ = syscall.Open(markEnd, syscall.O_RDONLY, 0)
	if limit >= 0 {
		_ = syscall.Setrlimit(syscall.RLIMIT_FSIZE, &syscall.Rlimit{Cur: ^uint64(0), Max: ^uint64(0)})
	}
	res := "ok"
	if err != nil {
		res = "error: " + err.Error()
	}
	if os.WriteFile(filepath.Join(dir, "result"), []byte(res), 0600) != nil {
		os.Exit(3)
	}
}

const c23Calls = "openat,open,creat,write,pwrite64,writev,pwritev,fsync,fdatasync,sync,syncfs,sync_file_range,close,rename,renameat,renameat2,link,linkat,symlink,symlinkat,unlink,unlinkat,ftruncate,truncate,fallocate,fchmod,fchmodat,chmod,dup,dup2,dup3,copy_file_range,sendfile"

type sysEvent struct {
	tid, name, args, ret string
	nth                  int // n-th call of this name by this thread
}

var straceLine = regexp.MustCompile(`^(\d+) +(\w+)\((.*)$`)
var straceResumed = regexp.MustCompile(`^(\d+) +<\.\.\. (\w+) resumed>(.*)$`)

// parseStrace returns the events between the markers made by the writing thread.
func parseStrace(log string) (evs []sysEvent, complete bool) {
	type key struct{ tid, name string }
	nth := map[key]int{}
	pend := map[string]int{}
	var all []sysEvent
	split := func(s string) (args, ret string) {
		if i := strings.LastIndex(s, ") = "); i >= 0 {
			return s[:i], s[i+4:]
		}
		if i := strings.LastIndex(s, ") "); i >= 0 && strings.Contains(s[i:], "= ") {
			return s[:i], strings.TrimLeft(s[i+2:], " =")
		}
		return s, "?"
	}
	for _, l := range strings.Split(log, "\n") {
		if m := straceResumed.FindStringSubmatch(l); m != nil {
			if i, ok := pend[m[1]]; ok {
				a, r := split(m[3])
				all[i].args += a
				all[i].ret = r
				delete(pend, m[1])
			}
			continue
		}
		m := straceLine.FindStringSubmatch(l)
		if m == nil {
			continue
		}
		k := key{m[1], m[2]}
		nth[k]++
		e := sysEvent{tid: m[1], name: m[2], nth: nth[k], ret: "?"}
		if i := strings.Index(m[3], " <unfinished ...>"); i >= 0 {
			e.args = m[3][:i]
			pend[m[1]] = len(all)
		} else {
			e.args, e.ret = split(m[3])
		}
		all = append(all, e)
	}
	tid := ""
	for _, e := range all {
		if strings.Contains(e.args, markStart) {
			tid = e.tid
			continue
		}
		if tid == "" {
			continue
		}
		if strings.Contains(e.args, markEnd) {
			return evs, true
		}
		// other threads count too (the code may hand the work over)
		evs = append(evs, e)
	}
	return evs, false
}

type c23Case struct {
	mode    string // create or rewrap
	old     bool   // an old configuration exists
	stale   bool   // a temporary file of an earlier crash exists
	longTmp bool   // ... and is longer than the new content and readable by all
	umask   string
	limit   int
	creator int
	rel     bool
}

func (k c23Case) String() string {
	return fmt.Sprintf("%s, old file %v, stale temporary file %v, umask %s, size limit %d, creator length %d, relative path %v", k.mode, k.old, k.stale || k.longTmp, k.umask, k.limit, k.creator, k.rel)
}

type c23Out struct {
	log    string
	conf   []byte // nil: absent
	mode   os.FileMode
	result string // "": died
	old    []byte
	status string
}

var c23n int64

func c23Run(c *Ctx, r *rand.Rand, k c23Case, inject ...string) (o c23Out, ok bool) {
	dir, err := os.MkdirTemp(c.Dir, "cw")
	must(err)
	defer os.RemoveAll(dir)
	d := filepath.Join(dir, "d")
	must(os.Mkdir(d, 0700))
	conf := filepath.Join(d, "gocryptfs.conf")
	if k.old {
		js, err := json.MarshalIndent(refMakeConf(r, randBytes(r, 32), []byte("old password"), VolCfg{HKDF: true, Raw64: true, LongNames: true}, 10), "", "\t")
		must(err)
		o.old = append(js, '\n')
		must(os.WriteFile(conf, o.old, 0400))
	}
	if k.stale {
		must(os.WriteFile(conf+".tmp", []byte("{\"Creator\": \"partial"), 0400))
		if k.longTmp {
			must(os.Chmod(conf+".tmp", 0600))
			must(os.WriteFile(conf+".tmp", []byte("{\"Creator\": \""+strings.Repeat("partial", 30000)), 0600))
			must(os.Chmod(conf+".tmp", 0644))
		}
	}
	rel := "abs"
	if k.rel {
		rel = "rel"
	}
	logf := filepath.Join(dir, "strace.log")
	args := []string{"-f", "-y", "-qq", "-s", "64", "-o", logf, "-e", "trace=" + c23Calls}
	for _, i := range inject {
		args = append(args, "-e", "inject="+i)
	}
	args = append(args, os.Args[0], "confwrite", k.mode, dir, k.umask, strconv.Itoa(k.limit), strconv.Itoa(k.creator), rel)
	cmd := exec.Command("strace", args...)
	var eb bytes.Buffer
	cmd.Stderr = &eb
	cmd.Env = append(os.Environ(), "GOMAXPROCS=2", "GODEBUG=asyncpreemptoff=1", "GOTRACEBACK=none")
	done := make(chan error, 1)
	must(cmd.Start())
	go func() { done <- cmd.Wait() }()
	select {
	case err = <-done:
	case <-time.After(60 * time.Second):
		_ = cmd.Process.Kill()
		c.Inconclusive("a writer did not end: %s %v", k, inject)
		return o, false
	}
	o.status = fmt.Sprint(err)
	lb, _ := os.ReadFile(logf)
	o.log = string(lb)
	if len(lb) == 0 {
		c.Inconclusive("strace does not work here: %s", clip(eb.String(), 500))
		return o, false
	}
	if b, err := os.ReadFile(filepath.Join(dir, "result")); err == nil {
		o.result = string(b)
	}
	if st, err := os.Lstat(conf); err == nil {
		o.mode = st.Mode()
		o.conf, err = os.ReadFile(conf)
		must(err)
		if o.conf == nil {
			o.conf = []byte{}
		}
	}
	return o, true
}

// newComplete tells whether the content is a complete configuration for the new password.
func (k c23Case) newComplete(o *c23Out) string {
	if o.conf == nil {
		return "there is no configuration"
	}
	var rc RefConf
	if err := json.Unmarshal(o.conf, &rc); err != nil {
		return fmt.Sprintf("it is not complete (%d bytes): %s", len(o.conf), err)
	}
	key, err := refUnwrap(&rc, []byte("new password"))
	if err != nil || len(key) != 32 {
		return "the new password does not unlock it"
	}
	if k.mode == "create" && (len(rc.Creator) != k.creator || rc.has("AESSIV") != (k.creator%2 == 1)) {
		return "its fields are not those requested"
	}
	return ""
}

// judge checks the file that is left. It returns "old", "new" or "".
func (k c23Case) judge(c *Ctx, what string, o *c23Out) string {
	if bytes.Equal(o.conf, o.old) && (o.conf == nil) == (o.old == nil) {
		return "old"
	}
	x := k.newComplete(o)
	if x == "" {
		return "new"
	}
	c.Violate("torn", "%s\n%s\nthe configuration file is neither the complete old nor the complete new one: %s\n%q", what, k, x, clip(string(o.conf), 300))
	return ""
}

// finished checks the outcome of a run that ended by itself.
func (k c23Case) finished(c *Ctx, what string, o *c23Out, mustFail bool) {
	st := k.judge(c, what, o)
	if st == "" {
		return
	}
	if o.result == "ok" {
		if st != "new" {
			c.Violate("lost", "%s\n%s\nsuccess is reported but the configuration is the old one", what, k)
		} else if o.mode.Perm()&077 != 0 {
			c.Violate("mode", "%s\n%s\nthe written configuration has mode %v", what, k, o.mode)
		}
		if mustFail {
			c.Violate("error-swallowed", "%s\n%s\nsuccess is reported", what, k)
		}
	}
}

func runC23(c *Ctx) {
	c.Rule("one case = one write of a configuration in its own process, with at most two faults (kill, or an error code) injected at chosen system calls of the write; distinct = distinct scenarios, faulted calls and faults; every system call made between the start and the end of the write is a fault point")
	c.Assume("a crash loses nothing the kernel has taken (kill of the process); loss of unsynced data at a power failure is judged by the order of write, sync and rename in the trace",
		"a failing sync may be ignored with a warning (documented in the code: network drives without fsync)")
	for _, k := range []string{"fault_points", "kills", "errors_injected", "died", "left_old", "left_new"} {
		c.Need(k, 3)
	}
	cases := []c23Case{
		{mode: "create", umask: "022", limit: -1, creator: 20},
		{mode: "create", old: true, umask: "022", limit: -1, creator: 21},
		{mode: "rewrap", old: true, umask: "022", limit: -1},
		{mode: "rewrap", old: true, umask: "000", limit: -1, rel: true},
		{mode: "create", umask: "077", limit: -1, creator: 100000},
		{mode: "create", umask: "000", limit: -1, creator: 9999},
		{mode: "create", umask: "000", limit: -1, creator: 33, rel: true},
		{mode: "create", old: true, stale: true, umask: "022", limit: -1, creator: 5},
		{mode: "rewrap", old: true, stale: true, umask: "022", limit: -1},
		{mode: "create", old: true, stale: true, longTmp: true, umask: "022", limit: -1, creator: 5},
	}
	sem := make(chan struct{}, 8)
	var wg sync.WaitGroup
	bg := func(f func()) {
		wg.Add(1)
		sem <- struct{}{}
		go func() { defer wg.Done(); defer func() { <-sem }(); f() }()
	}
	defer wg.Wait()
	for ci, k := range cases {
		k := k
		r := c.Rand("case", ci)
		c.Current(k.String())
		o, ok := c23Run(c, r, k)
		if !ok {
			return
		}
		c.Eval(fmt.Sprint("plain/", ci))
		evs, complete := parseStrace(o.log)
		if !complete {
			if o.result == "" {
				c.Violate("crash", "%s: the writer dies without any fault: %s", k, clip(o.log, 500))
			} else {
				c.Inconclusive("no markers in the trace")
			}
			continue
		}
		k.finished(c, "without any fault", &o, false)
		if !k.stale && o.result != "ok" {
			c.Violate("fails", "%s: writing fails without any fault: %s", k, o.result)
			continue
		}
		if o.result == "ok" {
			k.automaton(c, evs)
		}
		if ci < 2 {
			var l []string
			for _, e := range evs {
				l = append(l, e.name+"("+clip(e.args, 60)+") = "+e.ret)
			}
			c.Sample(l)
		}
		type fault struct{ spec, what, kind, name, fd string }
		var faults []fault
		for i, e := range evs {
			c.Count("fault_points", 1)
			at := fmt.Sprintf("event %d %s(%s", i, e.name, clip(e.args, 80))
			faults = append(faults, fault{fmt.Sprintf("%s:signal=KILL:when=%d", e.name, e.nth), "killed at " + at, "kill", e.name, ""})
			errs := []string{"EIO", "ENOSPC", "EDQUOT", "EROFS"}
			if e.name == "write" || e.name == "openat" {
				errs = append(errs, "EINTR")
			}
			for _, en := range errs {
				faults = append(faults, fault{fmt.Sprintf("%s:error=%s:when=%d", e.name, en, e.nth), en + " at " + at, en, e.name, e.args})
			}
		}
		one := func(f []fault, seed int) {
			r := c.Rand("fault", ci, seed)
			var spec []string
			what := ""
			for _, x := range f {
				spec = append(spec, x.spec)
				what += x.what + "; "
			}
			o, ok := c23Run(c, r, k, spec...)
			if !ok {
				return
			}
			c.Eval(fmt.Sprint("fault/", ci, spec))
			evs, _ := parseStrace(o.log)
			hit := map[string]bool{}
			for _, e := range evs {
				if strings.Contains(e.ret, "(INJECTED)") {
					hit[e.name] = true
				}
			}
			if f[0].kind == "kill" {
				c.Count("kills", 1)
			} else if hit[f[0].name] {
				c.Count("errors_injected", 1)
			}
			st := ""
			if o.result == "" {
				c.Count("died", 1)
				st = k.judge(c, what, &o)
			} else {
				mustFail := false
				if len(f) == 1 && f[0].kind != "kill" && f[0].kind != "EINTR" && hit[f[0].name] && k.writesConf(evs, f[0].name) {
					mustFail = true
				}
				k.finished(c, what, &o, mustFail)
				st = k.judge(c, what, &o)
			}
			c.Count("left_"+st, 1)
		}
		for i, f := range faults {
			if c.Stopped() {
				return
			}
			i, f := i, f
			bg(func() { one([]fault{f}, i) })
		}
		if !k.stale && (c.Thorough || ci < 3) {
			for i, f := range faults {
				for j, g := range faults {
					if c.Stopped() {
						return
					}
					if f.name == g.name || f.kind == "kill" || g.kind != "kill" && g.kind != "EIO" || !c.Thorough && f.kind != "EIO" {
						continue
					}
					i, j, f, g := i, j, f, g
					bg(func() { one([]fault{f, g}, 1000+i*1000+j) })
				}
			}
		}
		// short writes: the file size is limited, so that a write takes only part of the data
		full := len(o.conf)
		for n := 0; n < c.N(10, 100) && !k.stale; n++ {
			k := k
			rr := c.Rand("limit", ci, n)
			k.limit = rr.Intn(full + 1)
			switch n {
			case 0:
				k.limit = 0
			case 1:
				k.limit = 1
			case 2:
				k.limit = full - 1
			case 3:
				k.limit = full - 2
			}
			bg(func() {
				o, ok := c23Run(c, rr, k)
				if !ok {
					return
				}
				c.Eval(fmt.Sprint("limit/", ci, "/", n))
				c.Count("short_writes", 1)
				if o.result == "" {
					k.judge(c, "file size limit reached", &o)
				} else {
					k.finished(c, "file size limit reached", &o, false)
				}
			})
		}
	}
}

var fdPath = regexp.MustCompile(`^(\d+)<([^>]*)>`)

// writesConf tells whether the injected failure hit a call that matters for the file: a write
// to it, the close of a file written to, or its renaming.
func (k c23Case) writesConf(evs []sysEvent, name string) bool {
	written := map[string]bool{}
	for _, e := range evs {
		m := fdPath.FindStringSubmatch(e.args)
		inj := strings.Contains(e.ret, "(INJECTED)")
		isWrite := e.name == "write" || e.name == "pwrite64" || e.name == "writev" || e.name == "pwritev"
		ours := m != nil && strings.Contains(m[2], "gocryptfs.conf")
		if m != nil && isWrite && ours {
			written[m[1]] = true
			if inj {
				return true
			}
		}
		if inj && e.name == "close" && m != nil && ours && written[m[1]] {
			return true
		}
		if inj && strings.HasPrefix(e.name, "rename") {
			return true
		}
	}
	return false
}

var quoted = regexp.MustCompile(`"([^"]*)"`)

// automaton checks the order of events of a successful write: whatever takes the place of
// the configuration was written through a synced descriptor, is not written afterwards, and
// the configuration path itself is never opened for writing, truncated or removed.
func (k c23Case) automaton(c *Ctx, evs []sysEvent) {
	isConf := func(p string) bool { return strings.HasSuffix(p, "gocryptfs.conf") }
	type file struct {
		dirty, wrote, synced bool
		osync                bool
	}
	files := map[string]*file{} // by base name
	base := filepath.Base
	get := func(p string) *file {
		p = base(p)
		if files[p] == nil {
			files[p] = &file{}
		}
		return files[p]
	}
	bad := func(f string, a ...interface{}) {
		l := ""
		for _, e := range evs {
			l += e.name + "(" + clip(e.args, 120) + ") = " + e.ret + "\n"
		}
		c.Violate("order", "%s\n%s\n%s", k, fmt.Sprintf(f, a...), clip(l, 3000))
	}
	replaced := ""
	for _, e := range evs {
		if strings.HasPrefix(e.ret, "-1") || e.ret == "?" {
			continue
		}
		c.Count("trace_events", 1)
		q := quoted.FindAllStringSubmatch(e.args, -1)
		m := fdPath.FindStringSubmatch(e.args)
		switch e.name {
		case "openat", "open", "creat":
			if len(q) == 0 {
				continue
			}
			w := e.name == "creat" || strings.Contains(e.args, "O_WRONLY") || strings.Contains(e.args, "O_RDWR") || strings.Contains(e.args, "O_TRUNC")
			if w && isConf(q[0][1]) && k.old {
				bad("the existing configuration is opened for writing in place")
			}
			if w && (strings.Contains(e.args, "O_SYNC") || strings.Contains(e.args, "O_DSYNC")) {
				get(q[0][1]).osync = true
			}
		case "write", "pwrite64", "writev", "pwritev", "copy_file_range", "sendfile":
			if m == nil || !strings.HasPrefix(m[2], "/") || strings.HasPrefix(m[2], "/dev/") {
				continue
			}
			f := get(m[2])
			f.wrote = true
			if !f.osync {
				f.dirty = true
			}
			if replaced != "" && (base(m[2]) == replaced || isConf(m[2])) {
				bad("the configuration is written after it has been put in place")
			}
		case "fsync", "fdatasync", "syncfs":
			if m != nil {
				get(m[2]).dirty = false
				get(m[2]).synced = true
			}
		case "sync":
			for _, f := range files {
				f.dirty = false
			}
		case "truncate", "unlink", "unlinkat":
			for _, x := range q {
				if isConf(x[1]) && k.old {
					bad("the existing configuration is truncated or removed")
				}
			}
		case "rename", "renameat", "renameat2", "link", "linkat":
			if len(q) == 2 && isConf(q[1][1]) {
				f := get(q[0][1])
				if f.dirty {
					bad("%s takes the place of the configuration before its content is synced", q[0][1])
				}
				replaced = base(q[0][1])
				c.Count("replacements", 1)
			}
		}
	}
	if f := files["gocryptfs.conf"]; replaced == "" && f != nil && f.dirty {
		bad("the configuration is written without being synced")
	}
}
