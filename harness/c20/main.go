// Driver for C20: batching.EventBatcher, ReorderBuffer and ReorderFetcher.
package main

import (
	"context"
	"fmt"
	"math/rand"
	"os"
	"runtime"
	"sync"
	"time"

	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/zzverif/tr"
)

var t *tr.T

// manual is a Timer whose callbacks the driver runs whenever it likes, also after Stop (a real
// timer's callback can already be running when Stop is called).
type manual struct {
	mu    sync.Mutex
	item  func() int
	armed []armed
}
type armed struct {
	item int
	do   func()
}

func (m *manual) Set(d time.Duration, do func()) {
	m.mu.Lock()
	defer m.mu.Unlock()
	m.armed = append(m.armed, armed{m.item(), do})
}
func (m *manual) Stop() {}
func (m *manual) take(i int) armed {
	m.mu.Lock()
	defer m.mu.Unlock()
	a := m.armed[i]
	m.armed = append(append([]armed{}, m.armed[:i]...), m.armed[i+1:]...)
	return a
}
func (m *manual) n() int { m.mu.Lock(); defer m.mu.Unlock(); return len(m.armed) }

// ------------------------------------------------------------ EventBatcher
type bat struct {
	b    *batching.EventBatcher[int]
	tm   *manual
	n    int
	toks []batching.BatchToken
}

func newBat(max int, delay time.Duration, script string) *bat {
	t.Begin(tr.M{"kind": "batcher", "max": max, "script": script})
	r := &bat{}
	r.tm = &manual{item: func() int { return r.n }}
	r.b = batching.NewEventBatcher[int](context.Background(), batching.EventBatcherParams{MaxDelay: delay, MaxSize: max, Timer: r.tm})
	return r
}

func (r *bat) op(c byte, arg int) {
	switch c {
	case 'a':
		r.n++
		p := tr.Guard(func() { r.b.Add(r.n) })
		t.Ev("Add", tr.M{"x": r.n, "panic": p})
	case 'i':
		var res bool
		p := tr.Guard(func() { res = r.b.IsFull() })
		t.Ev("IsFull", tr.M{"res": res, "panic": p})
	case 'f':
		r.flush(batching.CurrentBatch)
	case 't': // some armed timer fires, its token is received
		if r.tm.n() == 0 {
			return
		}
		a := r.tm.take(arg % r.tm.n())
		go a.do()
		select {
		case tok := <-r.b.BatchTimedOut:
			r.toks = append(r.toks, tok)
			t.Ev("Timeout", tr.M{"tok": int(tok), "item": a.item, "panic": ""})
		case <-time.After(5 * time.Second):
			t.Ev("Timeout", tr.M{"tok": -9, "item": a.item, "panic": "no token delivered"})
		}
	case 'F': // flush with a received token
		if len(r.toks) > 0 {
			r.flush(r.toks[arg%len(r.toks)])
		}
	}
}

func (r *bat) flush(tok batching.BatchToken) {
	var res []int
	p := tr.Guard(func() { res = r.b.Flush(tok) })
	if res == nil {
		res = []int{}
	}
	t.Ev("Flush", tr.M{"tok": int(tok), "res": append([]int{}, res...), "panic": p})
}

func batcher() {
	// all scripts of length L over the operations, with the last armed timer / last token
	ops := "aiftF"
	L := tr.Pick(5, 6)
	for _, max := range []int{1, 2} {
		total := 1
		for range L {
			total *= len(ops)
		}
		for code := 0; code < total; code++ {
			s := make([]byte, L)
			c := code
			for j := range L {
				s[j] = ops[c%len(ops)]
				c /= len(ops)
			}
			if s[0] != 'a' && code%7 != 0 {
				continue
			}
			if s[0] == 'a' && tr.Seed()%3 != int64(code)%3 && !tr.Thorough() {
				continue
			}
			r := newBat(max, time.Second, string(s))
			for j, o := range s {
				r.op(o, j)
			}
			r.op('f', 0)
		}
	}
	rnd := tr.Rand(1)
	for i := range tr.Pick(60, 400) {
		max := rnd.Intn(5)
		delay := time.Duration(rnd.Intn(2)) * time.Second
		r := newBat(max1(max), delay, fmt.Sprint("random ", i))
		if max == 0 { // MaxSize 0 means 1
			r.b = batching.NewEventBatcher[int](context.Background(), batching.EventBatcherParams{MaxDelay: delay, MaxSize: 0, Timer: r.tm})
		}
		for range 60 {
			r.op("aaaaiftFF"[rnd.Intn(9)], rnd.Intn(100))
		}
		r.op('f', 0)
	}
}

func max1(n int) int { return max(n, 1) }

// ------------------------------------------------------------ ReorderBuffer
func buffer() {
	rnd := tr.Rand(2)
	for i := range tr.Pick(80, 500) {
		cap := 1 + rnd.Intn(5)
		t.Begin(tr.M{"kind": "buffer", "max": cap, "script": fmt.Sprint("random ", i)})
		b := batching.NewReorderBuffer[int](cap)
		var open []uint64
		inBuf := 0
		for range 60 {
			switch rnd.Intn(3) {
			case 0:
				if inBuf < cap {
					var s uint64
					p := tr.Guard(func() { s = b.Reserve() })
					t.Ev("Reserve", tr.M{"seq": int(s), "panic": p})
					open = append(open, s)
					inBuf++
				}
			case 1:
				if len(open) > 0 {
					j := rnd.Intn(len(open))
					s := open[j]
					open = append(open[:j:j], open[j+1:]...)
					p := tr.Guard(func() { b.Add(s, int(s)) })
					t.Ev("BAdd", tr.M{"seq": int(s), "panic": p})
				}
			case 2:
				limit := -1
				if rnd.Intn(4) == 0 {
					limit = 1 + rnd.Intn(2)
				}
				out := []int{}
				p := tr.Guard(func() {
					for x := range b.Drain() {
						out = append(out, x)
						if len(out) == limit {
							break
						}
					}
				})
				inBuf -= len(out)
				t.Ev("BDrain", tr.M{"limit": limit, "out": out, "panic": p})
			}
		}
	}
}

// ------------------------------------------------------------ ReorderFetcher
type fetch struct {
	seg  []int
	gate chan struct{}
}

type fet struct {
	rf      *batching.ReorderFetcher[int, int]
	tm      *manual
	added   int
	mu      sync.Mutex
	cur     int // item being added
	pending []*fetch
	auto    bool
	cmds    chan func()
	busy    bool
	outn    int
	bad     bool
}

func settle() {
	for range 40 {
		runtime.Gosched()
	}
}

func newFet(ctx context.Context, max, buf int, script string) *fet {
	t.Begin(tr.M{"kind": "fetcher", "max": max, "script": script, "buf": buf})
	r := &fet{cmds: make(chan func(), 1000)}
	r.tm = &manual{item: func() int { r.mu.Lock(); defer r.mu.Unlock(); return r.cur }}
	b := batching.NewEventBatcher[int](ctx, batching.EventBatcherParams{MaxDelay: time.Second, MaxSize: max, Timer: r.tm})
	r.rf = batching.NewReorderFetcher(ctx, batching.NewReorderFetcherParams[int, int]{
		Batcher: b,
		FetchBatch: func(ctx context.Context, ev []int) ([]int, error) {
			f := &fetch{append([]int{}, ev...), make(chan struct{})}
			r.mu.Lock()
			t.Ev("FetchStart", tr.M{"seg": f.seg, "panic": ""})
			auto := r.auto
			if !auto {
				r.pending = append(r.pending, f)
			}
			r.mu.Unlock()
			if !auto {
				<-f.gate
			}
			t.Ev("FetchEnd", tr.M{"seg": f.seg})
			return append([]int{}, ev...), nil
		},
		ErrChan:    make(chan error, 100),
		BufferSize: buf,
	})
	go func() {
		for c := range r.cmds {
			c()
		}
	}()
	return r
}

func (r *fet) add() {
	r.added++
	x := r.added
	r.cmds <- func() {
		r.mu.Lock()
		r.cur = x
		r.mu.Unlock()
		t.Ev("Add", tr.M{"x": x, "panic": ""})
		r.rf.Add(context.Background(), x)
	}
}

func (r *fet) explicit() {
	r.cmds <- func() {
		t.Ev("Explicit", nil)
		r.rf.Flush(context.Background())
	}
}

func (r *fet) fire(i int) bool {
	if r.tm.n() == 0 {
		return false
	}
	a := r.tm.take(i % r.tm.n())
	t.Ev("Fire", tr.M{"item": a.item})
	go a.do()
	return true
}

func (r *fet) release(i int) bool {
	r.mu.Lock()
	if len(r.pending) == 0 {
		r.mu.Unlock()
		return false
	}
	i %= len(r.pending)
	f := r.pending[i]
	r.pending = append(r.pending[:i:i], r.pending[i+1:]...)
	r.mu.Unlock()
	close(f.gate)
	return true
}

func (r *fet) consume(wait time.Duration) bool {
	select {
	case x := <-r.rf.Output:
		t.Ev("Out", tr.M{"x": x, "panic": ""})
		r.outn++
		return true
	default:
	}
	if wait == 0 {
		return false
	}
	select {
	case x := <-r.rf.Output:
		t.Ev("Out", tr.M{"x": x, "panic": ""})
		r.outn++
		return true
	case <-time.After(wait):
		return false
	}
}

func (r *fet) finish() {
	r.explicit()
	r.mu.Lock()
	r.auto = true
	r.mu.Unlock()
	for r.release(0) {
	}
	for r.outn < r.added {
		for r.release(0) {
		}
		if !r.consume(3 * time.Second) {
			break
		}
	}
	settle()
	for r.consume(0) { // nothing more may come
	}
	t.Ev("Quiesce", nil)
	r.bad = r.outn < r.added
	close(r.cmds)
}

func fetcherGated(rnd *rand.Rand, n int) {
	bads := 0
	for i := range n {
		ctx, cancel := context.WithCancel(context.Background())
		max, buf := 1+rnd.Intn(3), rnd.Intn(4)
		r := newFet(ctx, max, buf, fmt.Sprint("gated ", i))
		settle()
		w := [5]int{4, 2, 2, 1, 1} // weights: add fire release consume explicit
		if rnd.Intn(2) == 0 {
			w = [5]int{6, 4, 1, 1, 0}
		}
		tot := 0
		for _, x := range w {
			tot += x
		}
		burst := rnd.Intn(3) == 0
		for range 40 {
			k := rnd.Intn(tot)
			c := 0
			for k >= w[c] {
				k -= w[c]
				c++
			}
			switch c {
			case 0:
				r.add()
			case 1:
				r.fire(rnd.Intn(8))
			case 2:
				r.release(rnd.Intn(8))
				if burst {
					r.release(rnd.Intn(8))
				}
			case 3:
				r.consume(0)
				if burst {
					r.consume(0)
				}
			case 4:
				r.explicit()
			}
			if !burst || rnd.Intn(2) == 0 {
				settle()
			}
		}
		settle()
		r.finish()
		cancel()
		if r.bad {
			if bads++; bads > 3 { // each one costs a time-out
				return
			}
		}
	}
}

// both flushers blocked on a full reorder buffer, then two places freed at once
func fetcherContended(n int) {
	for i := range n {
		ctx, cancel := context.WithCancel(context.Background())
		buf := 1 + i%3
		max := 2 + i%2
		r := newFet(ctx, max, buf, fmt.Sprint("contended ", i))
		settle()
		for range buf * max { // fill the buffer
			r.add()
		}
		settle()
		r.add() // starts a batch
		settle()
		r.fire(r.tm.n() - 1) // its timer goes off: the timeout flusher takes it and waits for a place
		settle()
		for range max {
			r.add() // the size flusher takes the next batch
		}
		settle()
		r.add()
		for range buf {
			r.release(0)
		}
		settle()
		if i%2 == 0 {
			for r.consume(0) {
				settle()
			}
		}
		r.finish()
		cancel()
		if r.bad {
			return
		}
	}
}

// real parallelism, real timers
func fetcherStress(rnd *rand.Rand, n int) {
	for i := range n {
		ctx, cancel := context.WithCancel(context.Background())
		max, buf := 1+rnd.Intn(4), 1+rnd.Intn(5)
		r := newFet(ctx, max, buf, fmt.Sprint("stress ", i))
		r.auto = true
		go func() {
			for ctx.Err() == nil {
				if k := r.tm.n(); k > 0 {
					r.fire(k - 1)
				}
				runtime.Gosched()
			}
		}()
		for range 60 {
			r.add()
		}
		for range 30 {
			r.consume(3 * time.Second)
		}
		cancelTimers := r
		_ = cancelTimers
		r.finish()
		cancel()
		time.Sleep(100 * time.Microsecond)
		if r.bad {
			return
		}
	}
}

func main() {
	t = tr.New()
	mode := os.Args[1]
	rnd := tr.Rand(3)
	switch mode {
	case "seq":
		batcher()
		buffer()
	case "conc":
		old := runtime.GOMAXPROCS(1)
		fetcherContended(tr.Pick(30, 120))
		fetcherGated(rnd, tr.Pick(400, 4000))
		runtime.GOMAXPROCS(old)
	case "stress":
		fetcherStress(rnd, tr.Pick(150, 1500))
	}
}
