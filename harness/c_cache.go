package main

import (
	"fmt"
	"math/rand"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/anishathalye/porcupine"
	"github.com/flawedmatrix/gocryptsftp/filetree"
)

func init() { register("C13", &Check{Run: runC13}) }

type lruOp struct {
	Op  byte // F, S, C
	Key string
	Val string
}

func (o lruOp) String() string {
	switch o.Op {
	case 'F':
		return "Find " + o.Key
	case 'S':
		return "Store " + o.Key + "=" + o.Val
	}
	return "Clear"
}

type lruRes struct {
	Found bool
	Val   string
	Path  string
}

// refLRU is the specification: keys in order of use, oldest first.
type refLRU struct {
	cap  int
	keys []string
	vals map[string]string
}

func newRefLRU(cap int) *refLRU { return &refLRU{cap: cap, vals: map[string]string{}} }

func (l *refLRU) touch(k string) {
	for i, x := range l.keys {
		if x == k {
			l.keys = append(append(append([]string{}, l.keys[:i]...), l.keys[i+1:]...), k)
			return
		}
	}
	l.keys = append(l.keys, k)
}

// step returns the result and whether an entry was evicted.
func (l *refLRU) step(o lruOp) (res lruRes, evicted bool) {
	switch o.Op {
	case 'F':
		v, ok := l.vals[o.Key]
		if ok {
			l.touch(o.Key)
			res = lruRes{true, v, o.Key}
		}
	case 'S':
		l.touch(o.Key)
		l.vals[o.Key] = o.Val
		if len(l.keys) > l.cap {
			delete(l.vals, l.keys[0])
			l.keys = l.keys[1:]
			evicted = true
		}
	case 'C':
		l.keys, l.vals = nil, map[string]string{}
	}
	return
}

func applyCache(f *filetree.FastCache, o lruOp) (res lruRes) {
	switch o.Op {
	case 'F':
		m, ok := f.Find(o.Key)
		res.Found = ok
		if ok {
			res.Val, res.Path = m.CiphertextPath, m.PlaintextPath
		}
	case 'S':
		f.Store(o.Key, o.Val)
	case 'C':
		f.Clear()
	}
	return
}

func opsString(ops []lruOp) string {
	var l []string
	for _, o := range ops {
		l = append(l, o.String())
	}
	if len(l) > 60 {
		l = append([]string{fmt.Sprintf("... %d calls ...", len(l)-60)}, l[len(l)-60:]...)
	}
	return strings.Join(l, "; ")
}

// lruSeq runs a sequence against cache and model; returns a description of the first
// difference.
func lruSeq(cap int, ops []lruOp) (diff string, evictions, hits int) {
	f := filetree.NewFastCache(cap)
	m := newRefLRU(cap)
	i := 0
	if p := panicSafe(func() {
		for ; i < len(ops); i++ {
			want, ev := m.step(ops[i])
			if ev {
				evictions++
			}
			if want.Found {
				hits++
			}
			if got := applyCache(f, ops[i]); got != want {
				diff = fmt.Sprintf("capacity %d: %s: got %+v, want %+v, after %s", cap, ops[i], got, want, opsString(ops[:i]))
				return
			}
		}
	}); p != "" {
		diff = fmt.Sprintf("capacity %d: %s panics after %s: %s", cap, ops[i], opsString(ops[:i]), p)
	}
	return
}

func runC13(c *Ctx) {
	c.Rule("every sequence of 5 or 6 (thorough 7 to 9) lookups, stores and clears over capacity+1 paths for capacities 1 to 3, ended by lookups of all paths; random sequences of up to 5000 calls for capacities 1 to 40 with skewed key choice; " +
		"concurrent histories of 2..6 goroutines over perturbed schedules, checked for linearizability; a case is one sequence or history; non-trivial if it evicts or overlaps")
	c.Assume("the cache has a capacity of at least 1")
	// exhaustive short sequences
	for cap := 1; cap <= 3; cap++ {
		nk := cap + 1
		nops := 2*nk + 1
		max := c.N([]int{0, 6, 6, 5}[cap], []int{0, 9, 8, 7}[cap])
		idx := make([]int, max)
		for !c.Stopped() {
			ops := make([]lruOp, 0, max+nk)
			for p, x := range idx {
				switch {
				case x < nk:
					ops = append(ops, lruOp{Op: 'S', Key: string(rune('a' + x)), Val: fmt.Sprint(p)})
				case x < 2*nk:
					ops = append(ops, lruOp{Op: 'F', Key: string(rune('a' + x - nk))})
				default:
					ops = append(ops, lruOp{Op: 'C'})
				}
			}
			for k := 0; k < nk; k++ {
				ops = append(ops, lruOp{Op: 'F', Key: string(rune('a' + k))})
			}
			d, ev, _ := lruSeq(cap, ops)
			key := ""
			if ev > 0 {
				key = fmt.Sprint(cap, idx)
			}
			c.Eval(key)
			c.Count("sequences_enumerated", 1)
			if d != "" {
				c.Violate("not-lru", "%s", d)
			}
			i := 0
			for ; i < max; i++ {
				idx[i]++
				if idx[i] < nops {
					break
				}
				idx[i] = 0
			}
			if i == max {
				break
			}
		}
	}
	// random long sequences
	for e := 0; e < c.N(6000, 60000) && !c.Stopped(); e++ {
		r := c.Rand("seq", e)
		cap := 1 + r.Intn(40)
		if e%4 == 0 {
			cap = 16
		}
		nk := 1 + r.Intn(cap*3)
		n := 1 + r.Intn(200)
		if e%50 == 0 {
			n = 5000
		}
		pc := r.Intn(100)
		var ops []lruOp
		for i := 0; i < n; i++ {
			k := fmt.Sprintf("/dir%d", r.Intn(nk))
			if r.Intn(3) == 0 {
				k = fmt.Sprintf("/dir%d", r.Intn(nk)*r.Intn(nk)/(nk+1))
			}
			switch x := r.Intn(300); {
			case x == 0 && pc < 50:
				ops = append(ops, lruOp{Op: 'C'})
			case x < 3*pc:
				ops = append(ops, lruOp{Op: 'S', Key: k, Val: fmt.Sprint("v", i)})
			default:
				ops = append(ops, lruOp{Op: 'F', Key: k})
			}
		}
		for k := 0; k < nk; k++ {
			ops = append(ops, lruOp{Op: 'F', Key: fmt.Sprintf("/dir%d", k)})
		}
		d, ev, hits := lruSeq(cap, ops)
		key := ""
		if ev > 0 && hits > 0 {
			key = fmt.Sprint("seq", e)
		}
		c.Eval(key)
		c.Count("random_sequences", 1)
		c.Count("evictions", int64(ev))
		c.Count("hits", int64(hits))
		if d != "" {
			c.Violate("not-lru", "%s", d)
		}
	}
	// concurrent histories
	for e := 0; e < c.N(8000, 60000) && !c.Stopped(); e++ {
		if !c13History(c, c.Rand("conc", e), e) {
			return
		}
	}
	c.Need("evictions", 10000)
	c.Need("histories_checked", 2000)
	c.Need("overlapping_calls", 5000)
}

type lruState struct {
	keys string // "k=v;k=v;", oldest first
}

func lruModel(cap int) porcupine.Model {
	parse := func(s lruState) *refLRU {
		l := newRefLRU(cap)
		for _, kv := range strings.Split(s.keys, ";") {
			if kv == "" {
				continue
			}
			p := strings.SplitN(kv, "=", 2)
			l.keys = append(l.keys, p[0])
			l.vals[p[0]] = p[1]
		}
		return l
	}
	return porcupine.Model{
		Init: func() interface{} { return lruState{} },
		Step: func(st, in, out interface{}) (bool, interface{}) {
			l := parse(st.(lruState))
			want, _ := l.step(in.(lruOp))
			if want != out.(lruRes) {
				return false, st
			}
			var b strings.Builder
			for _, k := range l.keys {
				b.WriteString(k + "=" + l.vals[k] + ";")
			}
			return true, lruState{b.String()}
		},
		Equal: func(a, b interface{}) bool { return a == b },
	}
}

func c13History(c *Ctx, r *rand.Rand, e int) bool {
	cap := 1 + r.Intn(4)
	f := filetree.NewFastCache(cap)
	gs := 2 + r.Intn(5)
	per := 3 + r.Intn(6)
	nk := cap + 1 + r.Intn(2)
	var clock int64
	var mu sync.Mutex
	var hist []porcupine.Operation
	panics := ""
	ok := c.Guard("concurrent cache calls", noInflight, func() {
		var wg sync.WaitGroup
		gate := make(chan struct{})
		for g := 0; g < gs; g++ {
			gr := rand.New(rand.NewSource(r.Int63()))
			wg.Add(1)
			go func(g int) {
				defer wg.Done()
				<-gate
				p := panicSafe(func() {
					for i := 0; i < per; i++ {
						o := lruOp{Op: "FFSSSSF"[gr.Intn(7)], Key: string(rune('a' + gr.Intn(nk)))}
						if gr.Intn(30) == 0 {
							o = lruOp{Op: 'C'}
						}
						if o.Op == 'S' {
							o.Val = fmt.Sprintf("%d.%d", g, i)
						}
						a := atomic.AddInt64(&clock, 1)
						res := applyCache(f, o)
						b := atomic.AddInt64(&clock, 1)
						mu.Lock()
						hist = append(hist, porcupine.Operation{ClientId: g, Input: o, Call: a, Output: res, Return: b})
						mu.Unlock()
					}
				})
				if p != "" {
					mu.Lock()
					panics = p
					mu.Unlock()
				}
			}(g)
		}
		close(gate)
		wg.Wait()
		// the final contents, sequentially
		if panics == "" {
			panics = panicSafe(func() {
				for k := 0; k < nk; k++ {
					o := lruOp{Op: 'F', Key: string(rune('a' + k))}
					a := atomic.AddInt64(&clock, 1)
					res := applyCache(f, o)
					b := atomic.AddInt64(&clock, 1)
					hist = append(hist, porcupine.Operation{ClientId: 0, Input: o, Call: a, Output: res, Return: b})
				}
			})
		}
	})
	if !ok {
		return false
	}
	if panics != "" {
		c.Violate("panic", "concurrent use panics: %s", panics)
		return true
	}
	ov := 0
	for i := range hist {
		for j := range hist[:i] {
			if hist[i].Call < hist[j].Return && hist[j].Call < hist[i].Return {
				ov++
				break
			}
		}
	}
	key := ""
	if ov > 0 {
		key = fmt.Sprint("hist", e)
	}
	c.Eval(key)
	c.Count("overlapping_calls", int64(ov))
	switch porcupine.CheckOperationsTimeout(lruModel(cap), hist, 20*time.Second) {
	case porcupine.Illegal:
		var l []string
		for _, h := range hist {
			l = append(l, fmt.Sprintf("[%d,%d] g%d %s -> %+v", h.Call, h.Return, h.ClientId, h.Input, h.Output))
		}
		c.Violate("not-linearizable", "capacity %d:\n%s", cap, strings.Join(l, "\n"))
	case porcupine.Unknown:
		c.Count("histories_undecided", 1)
	default:
		c.Count("histories_checked", 1)
	}
	if e%1500 == 0 {
		c.Sample(fmt.Sprintf("history %d: capacity %d, %d goroutines, %d calls, %d overlapping", e, cap, gs, len(hist), ov))
	}
	return true
}
