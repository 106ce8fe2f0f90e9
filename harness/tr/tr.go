// Package tr writes ndjson traces for TLC and holds small helpers shared by the drivers.
package tr

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"strconv"
	"sync"
	"time"
)

// T is a trace writer. Traces are spread over several files so that TLC runs in parallel.
type T struct {
	mu     sync.Mutex
	dir    string
	files  []*os.File
	sizes  []int
	cur    int
	Traces int
	Events int
}

type M = map[string]any

func New() *T {
	dir := os.Getenv("TRACE_DIR")
	if dir == "" {
		panic("TRACE_DIR not set")
	}
	n, _ := strconv.Atoi(os.Getenv("TRACE_CHUNKS"))
	if n <= 0 {
		n = 8
	}
	t := &T{dir: dir}
	for i := range n {
		f, err := os.Create(filepath.Join(dir, fmt.Sprintf("t%02d.ndjson", i)))
		if err != nil {
			panic(err)
		}
		t.files = append(t.files, f)
		t.sizes = append(t.sizes, 0)
	}
	go t.watch()
	return t
}

// watch ends the driver when the code under test stopped making progress: no specification explains Hang.
func (t *T) watch() {
	last, idle := -1, 0
	for {
		time.Sleep(time.Second)
		t.mu.Lock()
		n := t.Events
		t.mu.Unlock()
		if n != last || n == 0 {
			last, idle = n, 0
			continue
		}
		if idle++; idle >= 90 {
			t.Ev("Hang", nil)
			os.Exit(0)
		}
	}
}

// Begin starts a new trace in the emptiest file.
func (t *T) Begin(m M) {
	t.mu.Lock()
	best := 0
	for i, s := range t.sizes {
		if s < t.sizes[best] {
			best = i
		}
	}
	t.cur = best
	t.Traces++
	n := t.Traces
	t.mu.Unlock()
	if err := os.WriteFile(filepath.Join(t.dir, "current"), []byte(fmt.Sprintf("t%02d.ndjson %d", best, n)), 0o644); err != nil {
		panic(err)
	}
	m["trace"] = n
	t.Ev("Begin", m)
}

// Ev appends one event.
func (t *T) Ev(ev string, m M) {
	line := encode(ev, m)
	t.mu.Lock()
	defer t.mu.Unlock()
	if _, err := t.files[t.cur].Write(line); err != nil {
		panic(err)
	}
	t.sizes[t.cur]++
	t.Events++
}

func encode(ev string, m M) []byte {
	if m == nil {
		m = M{}
	}
	body, err := json.Marshal(m)
	if err != nil {
		panic(err)
	}
	line := make([]byte, 0, len(body)+16)
	line = append(line, `{"ev":"`...)
	line = append(line, ev...)
	line = append(line, '"')
	if len(body) > 2 {
		line = append(line, ',')
		line = append(line, body[1:]...)
	} else {
		line = append(line, '}')
	}
	return append(line, '\n')
}

// R is one trace of several recorded at the same time; it is written to the file when it is done.
type R struct {
	t    *T
	mu   sync.Mutex
	buf  []byte
	n    int
	done bool
}

// Start starts a trace that is recorded next to others.
func (t *T) Start(m M) *R {
	t.mu.Lock()
	t.Traces++
	n := t.Traces
	t.mu.Unlock()
	r := &R{t: t}
	m["trace"] = n
	r.Ev("Begin", m)
	if n == 1 {
		if err := os.WriteFile(filepath.Join(t.dir, "begin0"), r.buf, 0o644); err != nil {
			panic(err)
		}
		if err := os.WriteFile(filepath.Join(t.dir, "current"), []byte("t00.ndjson 1"), 0o644); err != nil {
			panic(err)
		}
	}
	go r.watch()
	return r
}

func (r *R) watch() {
	last, idle := -1, 0
	for {
		time.Sleep(time.Second)
		r.mu.Lock()
		n, done := r.n, r.done
		r.mu.Unlock()
		if done {
			return
		}
		if n != last {
			last, idle = n, 0
			continue
		}
		if idle++; idle >= 90 {
			r.Ev("Hang", nil)
			r.Done()
			os.Exit(0)
		}
	}
}

func (r *R) Ev(ev string, m M) {
	line := encode(ev, m)
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.done { // late events of goroutines the code under test left behind
		return
	}
	r.buf = append(r.buf, line...)
	r.n++
}

// Done writes the trace to the emptiest file.
func (r *R) Done() {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.done {
		return
	}
	r.done = true
	t := r.t
	t.mu.Lock()
	defer t.mu.Unlock()
	best := 0
	for i, s := range t.sizes {
		if s < t.sizes[best] {
			best = i
		}
	}
	if _, err := t.files[best].Write(r.buf); err != nil {
		panic(err)
	}
	t.sizes[best] += r.n
	t.Events += r.n
}

// Parallel runs f(0..n-1), par at a time.
func Parallel(n, par int, f func(i int)) {
	var wg sync.WaitGroup
	next := make(chan int)
	for range par {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range next {
				f(i)
			}
		}()
	}
	for i := range n {
		next <- i
	}
	close(next)
	wg.Wait()
}

func Seed() int64 {
	n, err := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if err != nil {
		return 1
	}
	return n
}

func Thorough() bool { return os.Getenv("VERIF_TIER") == "thorough" }

// Pick returns q in the quick tier and t in the thorough one.
func Pick(q, t int) int {
	if Thorough() {
		return t
	}
	return q
}

func Rand(salt int64) *rand.Rand { return rand.New(rand.NewSource(Seed()*1000003 + salt)) }

// Bytes turns a byte string into a JSON array of ints (a TLA+ sequence).
func Bytes(b []byte) []int {
	r := make([]int, len(b))
	for i, x := range b {
		r[i] = int(x)
	}
	return r
}

// Guard runs f and reports a panic of the code under test as text ("" when it returned).
func Guard(f func()) (p string) {
	defer func() {
		if r := recover(); r != nil {
			p = fmt.Sprintf("panic: %v", r)
			if len(p) > 160 {
				p = p[:160]
			}
		}
	}()
	f()
	return ""
}
