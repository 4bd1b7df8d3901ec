package main

import (
	"bytes"
	"fmt"
	"io"
	"math/rand"
	"os"
	"path"
	"strings"

	"github.com/flawedmatrix/gocryptsftp/filetree"
	"github.com/flawedmatrix/gocryptsftp/handlers"
	"github.com/pkg/sftp"
)

// Entry is what a client learns about an object.
type Entry struct {
	Name  string
	Size  int64
	Perm  uint32 // wire form: type and permission bits
	MTime int64
}

func (e Entry) dir() bool { return e.Perm&0170000 == 0040000 }
func (e Entry) reg() bool { return e.Perm&0170000 == 0100000 }

// View is one way of using the proxy.
type View interface {
	Kind() string
	Read(p string) ([]byte, error)
	List(p string) ([]Entry, error)
	Stat(p string) (Entry, error)
	Close()
}

type rawView struct {
	c     *RawClient
	stop  func()
	chunk uint32
}

func (v *rawView) Kind() string                  { return "sftp-raw" }
func (v *rawView) Close()                        { v.stop() }
func (v *rawView) Read(p string) ([]byte, error) { return v.c.readAll(p, v.chunk) }
func (v *rawView) List(p string) ([]Entry, error) {
	l, _, err := v.c.list(p)
	if err != nil {
		return nil, err
	}
	out := []Entry{}
	for _, e := range l {
		out = append(out, Entry{e.Name, int64(e.A.Size), e.A.Perm, int64(e.A.Mtime)})
	}
	return out, nil
}
func (v *rawView) Stat(p string) (Entry, error) {
	a, err := v.c.attrReq(fxStat, p)
	return Entry{path.Base(p), int64(a.Size), a.Perm, int64(a.Mtime)}, err
}

type libView struct {
	c    *sftp.Client
	stop func()
}

func entryOf(i os.FileInfo) Entry {
	if i == nil {
		panic(neither)
	}
	return Entry{i.Name(), i.Size(), permBits(i.Mode()), i.ModTime().Unix()}
}

func (v *libView) Kind() string { return "sftp-lib" }
func (v *libView) Close()       { v.stop() }
func (v *libView) Read(p string) ([]byte, error) {
	f, err := v.c.Open(p)
	if err != nil {
		return nil, err
	}
	defer f.Close()
	var b bytes.Buffer
	_, err = f.WriteTo(&b)
	return b.Bytes(), err
}
func (v *libView) List(p string) ([]Entry, error) {
	l, err := v.c.ReadDir(p)
	if err != nil {
		return nil, err
	}
	out := []Entry{}
	for _, i := range l {
		out = append(out, entryOf(i))
	}
	return out, nil
}
func (v *libView) Stat(p string) (Entry, error) {
	i, err := v.c.Stat(p)
	if err != nil {
		return Entry{}, err
	}
	return entryOf(i), nil
}

type treeView struct{ ft *filetree.FileTree }

func (v *treeView) Kind() string                  { return "filetree" }
func (v *treeView) Close()                        {}
func (v *treeView) Read(p string) ([]byte, error) { return v.ft.ReadFile(p) }
func (v *treeView) List(p string) ([]Entry, error) {
	l, err := v.ft.ReadDir(p)
	if err != nil {
		return nil, err
	}
	out := []Entry{}
	for _, i := range l {
		out = append(out, entryOf(i))
	}
	return out, nil
}
func (v *treeView) Stat(p string) (Entry, error) {
	i, err := v.ft.Stat(p)
	if err != nil {
		return Entry{}, err
	}
	return entryOf(i), nil
}

// neither is what the sftp server would crash on.
const neither = "a handler returned neither a result nor an error"

// handlerView calls the request handlers as the sftp server does, with reads and pages
// of other sizes and orders.
type handlerView struct {
	h sftp.Handlers
	r *rand.Rand
}

func (v *handlerView) Kind() string { return "handlers" }
func (v *handlerView) Close()       {}

func (v *handlerView) Read(p string) ([]byte, error) {
	rd, err := v.h.FileGet.Fileread(&sftp.Request{Method: "Get", Filepath: p})
	if err != nil {
		return nil, err
	}
	if rd == nil {
		panic(neither)
	}
	var out []byte
	buf := make([]byte, 1+v.r.Intn([]int{10000, 40000, 300000}[v.r.Intn(3)]))
	for {
		n, err := rd.ReadAt(buf, int64(len(out)))
		out = append(out, buf[:n]...)
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		if n < len(buf) {
			return nil, fmt.Errorf("ReadAt gives %d of %d bytes and no error", n, len(buf))
		}
	}
	// again, in any order
	for k := 0; k < 4 && len(out) > 0; k++ {
		off := v.r.Intn(len(out))
		b := make([]byte, 1+v.r.Intn(20000))
		n, err := rd.ReadAt(b, int64(off))
		want := out[off:]
		if len(want) > len(b) {
			want = want[:len(b)]
		}
		if !bytes.Equal(b[:n], want) || (err != nil && err != io.EOF) || (err == nil && n < len(b)) {
			return nil, fmt.Errorf("ReadAt of %d bytes at %d of %d gives %d bytes that differ from the first read, %v", len(b), off, len(out), n, err)
		}
	}
	if n, err := rd.ReadAt(make([]byte, 10), int64(len(out))+int64(v.r.Intn(100))); n != 0 || err != io.EOF {
		return nil, fmt.Errorf("ReadAt after the end gives %d bytes, %v", n, err)
	}
	if cl, ok := rd.(io.Closer); ok {
		_ = cl.Close()
	}
	return out, nil
}

func (v *handlerView) List(p string) ([]Entry, error) {
	l, err := v.h.FileList.Filelist(&sftp.Request{Method: "List", Filepath: p})
	if err != nil {
		return nil, err
	}
	if l == nil {
		panic(neither)
	}
	out := []Entry{}
	page := make([]os.FileInfo, 1+v.r.Intn([]int{3, 20, 300, 5000}[v.r.Intn(4)]))
	for {
		n, err := l.ListAt(page, int64(len(out)))
		for _, i := range page[:n] {
			out = append(out, entryOf(i))
		}
		if err == io.EOF {
			break
		}
		if err != nil {
			return nil, err
		}
		if n == 0 {
			return nil, fmt.Errorf("ListAt gives no entries and no error")
		}
	}
	if n, err := l.ListAt(page, int64(len(out))+int64(v.r.Intn(3))); n != 0 || err != io.EOF {
		return nil, fmt.Errorf("ListAt after the end gives %d entries, %v", n, err)
	}
	return out, nil
}

func (v *handlerView) Stat(p string) (Entry, error) {
	l, err := v.h.FileList.Filelist(&sftp.Request{Method: "Stat", Filepath: p})
	if err != nil {
		return Entry{}, err
	}
	if l == nil {
		panic(neither)
	}
	page := make([]os.FileInfo, 1)
	n, err := l.ListAt(page, 0)
	if err != nil && err != io.EOF {
		return Entry{}, err
	}
	if n != 1 {
		return Entry{}, os.ErrNotExist
	}
	return entryOf(page[0]), nil
}

// openView unlocks the volume at fs and returns a view of the given kind (0..3).
func openView(kind int, v *Volume, fs filetree.FSAccessor, workers int, chunk uint32) (View, error) {
	pw := append([]byte{}, v.Password...)
	if kind == 2 {
		ft, err := filetree.Init(v.RootPath, pw, workers, fs)
		if err != nil {
			return nil, err
		}
		return &treeView{ft}, nil
	}
	h, err := handlers.DecryptHandler(v.RootPath, pw, workers, fs)
	if err != nil {
		return nil, err
	}
	return viewOf(kind, h, chunk), nil
}

func viewOf(kind int, h sftp.Handlers, chunk uint32) View {
	if kind == 3 {
		return &handlerView{h, rand.New(rand.NewSource(int64(chunk) + 1))}
	}
	if kind == 1 {
		c, stop := libSession(h)
		return &libView{c, stop}
	}
	c, stop := rawSession(h)
	if chunk == 0 {
		chunk = 32768
	}
	return &rawView{c, stop, chunk}
}

// expected answers ---------------------------------------------------------

func nodeEntry(n *Node) Entry {
	return Entry{n.Name, int64(len(n.PT)), permBits(n.Mode), n.MTime.Unix()}
}

// entryDiff compares what was reported with the stored object; directory sizes are
// not specified.
func entryDiff(got, want Entry, name bool) string {
	var d []string
	if name && got.Name != want.Name {
		d = append(d, fmt.Sprintf("name %q want %q", got.Name, want.Name))
	}
	if got.Perm != want.Perm {
		d = append(d, fmt.Sprintf("type/permissions %o want %o", got.Perm, want.Perm))
	}
	if got.MTime != want.MTime {
		d = append(d, fmt.Sprintf("mtime %d want %d", got.MTime, want.MTime))
	}
	if want.reg() && got.Size != want.Size {
		d = append(d, fmt.Sprintf("size %d want %d", got.Size, want.Size))
	}
	return strings.Join(d, "; ")
}

// listingDiff compares a listing with the expected children.
func listingDiff(got []Entry, want []*Node, attrs bool) string {
	seen := map[string]int{}
	byName := map[string]*Node{}
	for _, n := range want {
		byName[n.Name] = n
	}
	var d []string
	for _, e := range got {
		seen[e.Name]++
		n := byName[e.Name]
		if n == nil {
			d = append(d, fmt.Sprintf("unexpected entry %q", e.Name))
			continue
		}
		if seen[e.Name] > 1 {
			d = append(d, fmt.Sprintf("entry %q listed %d times", e.Name, seen[e.Name]))
		}
		w := nodeEntry(n)
		if e.dir() != w.dir() || e.reg() != w.reg() {
			d = append(d, fmt.Sprintf("entry %q has type %o, want %o", e.Name, e.Perm, w.Perm))
		} else if attrs {
			if x := entryDiff(e, w, true); x != "" {
				d = append(d, fmt.Sprintf("entry %q: %s", e.Name, x))
			}
		}
	}
	for _, n := range want {
		if seen[n.Name] == 0 {
			d = append(d, fmt.Sprintf("entry %q is missing", n.Name))
		}
	}
	if len(d) > 6 {
		d = append(d[:6], fmt.Sprintf("... %d differences", len(d)))
	}
	return strings.Join(d, "; ")
}

// randTree fills a volume with random directories and small files.
func randTree(r *rand.Rand, v *Volume, dirs, files, maxSize int) {
	ds := []*Node{v.Root}
	for i := 0; i < dirs; i++ {
		p := ds[r.Intn(len(ds))]
		if r.Intn(3) == 0 {
			p = ds[len(ds)-1] // grow depth
		}
		ds = append(ds, v.Mkdir(p, uniqueName(r, p)))
	}
	for i := 0; i < files; i++ {
		p := ds[r.Intn(len(ds))]
		pt, holes := genPT(r, interestingSize(r, maxSize))
		v.File(p, uniqueName(r, p), pt, holes)
	}
}

var rootPaths = []string{"/enc", "/srv/data/encrypted", "/srv/../srv/enc", "/", "/enc/", "/deep/er//path"}

func openHandlers(v *Volume, fs filetree.FSAccessor, workers int) (sftp.Handlers, error) {
	return handlers.DecryptHandler(v.RootPath, append([]byte{}, v.Password...), workers, fs)
}
