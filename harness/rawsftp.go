package main

import (
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"sync"

	"github.com/pkg/sftp"
)

const (
	fxInit     = 1
	fxVersion  = 2
	fxOpen     = 3
	fxClose    = 4
	fxRead     = 5
	fxWrite    = 6
	fxLstat    = 7
	fxFstat    = 8
	fxSetstat  = 9
	fxFsetstat = 10
	fxOpendir  = 11
	fxReaddir  = 12
	fxRemove   = 13
	fxMkdir    = 14
	fxRmdir    = 15
	fxRealpath = 16
	fxStat     = 17
	fxRename   = 18
	fxReadlink = 19
	fxSymlink  = 20
	fxStatus   = 101
	fxHandle   = 102
	fxData     = 103
	fxName     = 104
	fxAttrs    = 105
	fxExtended = 200
)

var fxNames = map[byte]string{1: "INIT", 3: "OPEN", 4: "CLOSE", 5: "READ", 6: "WRITE", 7: "LSTAT", 8: "FSTAT", 9: "SETSTAT", 10: "FSETSTAT",
	11: "OPENDIR", 12: "READDIR", 13: "REMOVE", 14: "MKDIR", 15: "RMDIR", 16: "REALPATH", 17: "STAT", 18: "RENAME", 19: "READLINK", 20: "SYMLINK", 200: "EXTENDED"}

func be32(v uint32) []byte { b := make([]byte, 4); binary.BigEndian.PutUint32(b, v); return b }
func be64(v uint64) []byte { b := make([]byte, 8); binary.BigEndian.PutUint64(b, v); return b }
func sstr(s string) []byte { return append(be32(uint32(len(s))), s...) }
func cat(bs ...[]byte) []byte {
	var o []byte
	for _, b := range bs {
		o = append(o, b...)
	}
	return o
}

var errShort = errors.New("short packet")

type rd struct {
	b   []byte
	err error
}

func (r *rd) u32() uint32 {
	if len(r.b) < 4 {
		r.err = errShort
		return 0
	}
	v := binary.BigEndian.Uint32(r.b)
	r.b = r.b[4:]
	return v
}
func (r *rd) u64() uint64 { h := r.u32(); return uint64(h)<<32 | uint64(r.u32()) }
func (r *rd) str() string {
	n := int(r.u32())
	if r.err != nil || n < 0 || len(r.b) < n {
		r.err = errShort
		return ""
	}
	s := string(r.b[:n])
	r.b = r.b[n:]
	return s
}

func readPkt(r io.Reader) (byte, []byte, error) {
	var h [4]byte
	if _, err := io.ReadFull(r, h[:]); err != nil {
		return 0, nil, err
	}
	n := binary.BigEndian.Uint32(h[:])
	if n == 0 || n > 1<<20 {
		return 0, nil, fmt.Errorf("bad packet length %d", n)
	}
	b := make([]byte, n)
	if _, err := io.ReadFull(r, b); err != nil {
		return 0, nil, err
	}
	return b[0], b[1:], nil
}

func pkt(t byte, body []byte) []byte {
	return cat(be32(uint32(len(body)+1)), []byte{t}, body)
}

type Attr struct {
	Flags  uint32
	Size   uint64
	Perm   uint32
	Mtime  uint32
	HasSz  bool
	HasPrm bool
}

func parseAttr(r *rd) Attr {
	var a Attr
	a.Flags = r.u32()
	if a.Flags&1 != 0 {
		a.Size = r.u64()
		a.HasSz = true
	}
	if a.Flags&2 != 0 {
		r.u32()
		r.u32()
	}
	if a.Flags&4 != 0 {
		a.Perm = r.u32()
		a.HasPrm = true
	}
	if a.Flags&8 != 0 {
		r.u32()
		a.Mtime = r.u32()
	}
	if a.Flags&0x80000000 != 0 {
		n := r.u32()
		for i := uint32(0); i < n && r.err == nil; i++ {
			r.str()
			r.str()
		}
	}
	return a
}

// permBits converts a FileMode to the wire form.
func permBits(m os.FileMode) uint32 {
	p := uint32(m.Perm())
	switch {
	case m&os.ModeDir != 0:
		p |= 0040000
	case m&os.ModeSymlink != 0:
		p |= 0120000
	case m&os.ModeNamedPipe != 0:
		p |= 0010000
	case m&os.ModeSocket != 0:
		p |= 0140000
	case m&os.ModeCharDevice != 0:
		p |= 0020000
	case m&os.ModeDevice != 0:
		p |= 0060000
	default:
		p |= 0100000
	}
	for _, x := range []struct {
		m os.FileMode
		b uint32
	}{{os.ModeSetuid, 04000}, {os.ModeSetgid, 02000}, {os.ModeSticky, 01000}} {
		if m&x.m != 0 {
			p |= x.b
		}
	}
	return p
}

// RawClient is a minimal lock-step SFTP v3 client: it sees the exact packets.
type RawClient struct {
	c  io.ReadWriteCloser
	id uint32
	mu sync.Mutex
}

type Reply struct {
	Type byte
	Body []byte // after the id
}

func (r Reply) status() (uint32, string) {
	if r.Type != fxStatus {
		return 0, ""
	}
	x := rd{b: r.Body}
	c := x.u32()
	return c, x.str()
}

func newRawClient(c io.ReadWriteCloser) (*RawClient, error) {
	if _, err := c.Write(pkt(fxInit, be32(3))); err != nil {
		return nil, err
	}
	t, _, err := readPkt(c)
	if err != nil {
		return nil, err
	}
	if t != fxVersion {
		return nil, fmt.Errorf("no version packet: %d", t)
	}
	return &RawClient{c: c}, nil
}

func (r *RawClient) rt(t byte, parts ...[]byte) (Reply, error) {
	r.mu.Lock()
	defer r.mu.Unlock()
	r.id++
	if _, err := r.c.Write(pkt(t, cat(append([][]byte{be32(r.id)}, parts...)...))); err != nil {
		return Reply{}, err
	}
	rt, b, err := readPkt(r.c)
	if err != nil {
		return Reply{}, err
	}
	if len(b) < 4 || binary.BigEndian.Uint32(b) != r.id {
		return Reply{}, fmt.Errorf("reply for another request")
	}
	return Reply{rt, b[4:]}, nil
}

var errStatus = errors.New("status failure")

func (r *RawClient) open(p string, flags uint32) (string, error) {
	rep, err := r.rt(fxOpen, sstr(p), be32(flags), be32(0))
	if err != nil {
		return "", err
	}
	if rep.Type != fxHandle {
		_, m := rep.status()
		return "", fmt.Errorf("%w: %s", errStatus, m)
	}
	x := rd{b: rep.Body}
	return x.str(), nil
}

func (r *RawClient) close(h string) { _, _ = r.rt(fxClose, sstr(h)) }

// readAt reads one packet; eof reports an EOF status.
func (r *RawClient) readAt(h string, off uint64, n uint32) (b []byte, eof bool, err error) {
	rep, err := r.rt(fxRead, sstr(h), be64(off), be32(n))
	if err != nil {
		return nil, false, err
	}
	if rep.Type == fxData {
		x := rd{b: rep.Body}
		return []byte(x.str()), false, nil
	}
	c, m := rep.status()
	if c == 1 {
		return nil, true, nil
	}
	return nil, false, fmt.Errorf("%w: %s", errStatus, m)
}

// readAll reads a whole file with the given request size.
func (r *RawClient) readAll(p string, chunk uint32) ([]byte, error) {
	h, err := r.open(p, 1)
	if err != nil {
		return nil, err
	}
	defer r.close(h)
	out := []byte{}
	for {
		b, eof, err := r.readAt(h, uint64(len(out)), chunk)
		if err != nil {
			return nil, err
		}
		if eof {
			return out, nil
		}
		if len(b) == 0 {
			return nil, fmt.Errorf("empty data packet")
		}
		out = append(out, b...)
	}
}

func (r *RawClient) attrReq(t byte, arg string) (Attr, error) {
	rep, err := r.rt(t, sstr(arg))
	if err != nil {
		return Attr{}, err
	}
	if rep.Type != fxAttrs {
		_, m := rep.status()
		return Attr{}, fmt.Errorf("%w: %s", errStatus, m)
	}
	x := rd{b: rep.Body}
	a := parseAttr(&x)
	return a, x.err
}

type NameEnt struct {
	Name string
	Long string
	A    Attr
}

func (r *RawClient) list(p string) ([]NameEnt, int, error) {
	rep, err := r.rt(fxOpendir, sstr(p))
	if err != nil {
		return nil, 0, err
	}
	if rep.Type != fxHandle {
		_, m := rep.status()
		return nil, 0, fmt.Errorf("%w: %s", errStatus, m)
	}
	x := rd{b: rep.Body}
	h := x.str()
	defer r.close(h)
	var out []NameEnt
	pages := 0
	for {
		rep, err := r.rt(fxReaddir, sstr(h))
		if err != nil {
			return nil, pages, err
		}
		if rep.Type == fxStatus {
			c, m := rep.status()
			if c == 1 {
				return out, pages, nil
			}
			return nil, pages, fmt.Errorf("%w: %s", errStatus, m)
		}
		pages++
		y := rd{b: rep.Body}
		n := y.u32()
		if n == 0 {
			return nil, pages, fmt.Errorf("empty name packet")
		}
		for i := uint32(0); i < n; i++ {
			e := NameEnt{Name: y.str(), Long: y.str()}
			e.A = parseAttr(&y)
			out = append(out, e)
		}
		if y.err != nil {
			return nil, pages, y.err
		}
	}
}

// ---- sessions over in-memory pipes ----

type duplex struct {
	io.Reader
	io.WriteCloser
	also io.Closer
}

func (d duplex) Close() error { _ = d.also.Close(); return d.WriteCloser.Close() }

func pipePair() (a, b duplex) {
	r1, w1 := io.Pipe()
	r2, w2 := io.Pipe()
	return duplex{r1, w2, r1}, duplex{r2, w1, r2}
}

// rawSession serves the handlers over a pipe the way main does and returns a raw client.
func rawSession(h sftp.Handlers) (*RawClient, func()) {
	a, b := pipePair()
	s := sftp.NewRequestServer(a, h)
	go func() { _ = s.Serve(); _ = s.Close() }()
	c, err := newRawClient(b)
	must(err)
	return c, func() { _ = b.Close(); _ = s.Close() }
}

// libSession returns a pkg/sftp client.
func libSession(h sftp.Handlers) (*sftp.Client, func()) {
	a, b := pipePair()
	s := sftp.NewRequestServer(a, h)
	go func() { _ = s.Serve(); _ = s.Close() }()
	c, err := sftp.NewClientPipe(b, b)
	must(err)
	return c, func() { _ = b.Close(); _ = s.Close() }
}
