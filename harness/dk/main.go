// Driver for the embedded key-value store: histories of puts, deletes, reads, checkpoints, restores,
// retention updates and garbage collections under many background schedules.
package main

import (
	"bytes"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/kv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/zzverif/simfs"
	"reduction.dev/reduction/zzverif/tr"
)

var t *tr.T

type handle struct {
	id  int
	ck  uint64
	h   recovery.CheckpointHandle
	own *owner
}

type dbx struct {
	id   int
	db   *dkv.DB
	dir  string
	own  *owner
	cks  []uint64 // ids of checkpoints this instance knows
	pend []*pendCk
}

type pendCk struct {
	d    *dbx
	ck   uint64
	done chan struct{}
	h    recovery.CheckpointHandle
	err  string
}

// owner is the share of the key groups (first two key bytes) an instance owns.
type owner struct {
	s      *sim
	lo, hi int // -1: everything
	peers  func() []*dbx
	fault  atomic.Int32 // number of coming questions that fail
}

func (o *owner) OwnsKey(k []byte) bool {
	if o.lo < 0 {
		return true
	}
	g := int(k[0])<<8 | int(k[1])
	return o.lo <= g && g < o.hi
}
func (o *owner) ExclusivelyOwnsTable(uri string, a, b []byte) (bool, error) {
	if o.fault.Load() > 0 {
		o.fault.Add(-1)
		return false, errors.New("neighbour unreachable")
	}
	for _, p := range o.peers() {
		if p.db.NeedsTable(uri) {
			return false, nil
		}
	}
	return true, nil
}

type sim struct {
	r        *rand.Rand
	w        *simfs.World
	fsOf     func(dir string) storage.FileSystem
	opt      dkv.DBOptions
	gated    bool
	ended    atomic.Bool
	mu       sync.Mutex
	snaps    []snap
	snapP    float64
	handles  []*handle
	retained map[int]bool
	gone     []int // handles dropped by instances that know the checkpoint, until they have succeeded at it
	live     []*dbx
	nextDB   int
	nextH    int
	nextDir  int
	nextCk   uint64
	keys     [][]byte
	groups   []int
	faults   bool
	log      *slog.Logger
}

type snap struct {
	w *simfs.World
	n int // handles that existed
	r map[int]bool
}

var quiet = slog.New(slog.NewTextHandler(io.Discard, nil))

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

func genKeys(r *rand.Rand, n int, groups []int) [][]byte {
	alpha := []byte{0, 1, 'a', 'b', 0x7f, 0x80, 0xc3, 0xfe, 0xff}
	seen := map[string]bool{}
	var ks [][]byte
	for tries := 0; len(ks) < n && tries < 60*n; tries++ {
		var k []byte
		if len(ks) > 0 && r.Intn(3) > 0 { // extend or alter an existing one
			k = slices.Clone(ks[r.Intn(len(ks))])
			if r.Intn(3) > 0 || len(k) == 0 {
				k = append(k, alpha[r.Intn(len(alpha))])
			} else {
				k[len(k)-1] = alpha[r.Intn(len(alpha))]
			}
		} else {
			for range r.Intn(4) {
				k = append(k, alpha[r.Intn(len(alpha))])
			}
		}
		if groups != nil {
			g := groups[r.Intn(len(groups))]
			if len(k) < 2 {
				k = append(k, 0, 0)
			}
			k[0], k[1] = byte(g>>8), byte(g)
		}
		if !seen[string(k)] && len(k) < 9 {
			seen[string(k)] = true
			if k == nil {
				k = []byte{}
			}
			ks = append(ks, k)
		}
	}
	return ks
}

func (s *sim) val() []byte {
	n := pick(s.r, 0, 1, 2, 3, 8, 8, 20)
	if s.r.Intn(25) == 0 {
		n = 120
	}
	b := make([]byte, n)
	s.r.Read(b)
	return b
}

func vs(b []byte) string { return "v" + hex.EncodeToString(b) }

func randOpts(r *rand.Rand) dkv.DBOptions {
	return dkv.DBOptions{
		MemTableSize:                pick[uint64](r, 1, 40, 60, 150, 400, 4000),
		TargetFileSize:              pick[uint64](r, 1, 40, 64, 120, 200, 1000, 100000),
		MaxWALSize:                  pick[uint64](r, 1, 60, 300, 1<<20, 1<<20),
		L0TableNumCompactionTrigger: pick(r, 1, 2, 2, 3, 4),
		Logger:                      quiet,
	}
}

func newSim(r *rand.Rand, mode, sched, fskind string, nkeys int, groups []int, opt dkv.DBOptions) *sim {
	s := &sim{r: r, opt: opt, gone: []int{}, retained: map[int]bool{}, groups: groups}
	s.keys = genKeys(r, nkeys, groups)
	switch fskind {
	case "sim":
		s.w = simfs.NewWorld()
		s.fsOf = func(d string) storage.FileSystem { return s.w.FS(d) }
	case "mem":
		m := storage.NewMemoryFilesystem()
		s.fsOf = func(d string) storage.FileSystem { return m.WithWorkingDir("/" + d) }
	case "local":
		base, err := os.MkdirTemp("", "dk")
		if err != nil {
			panic(err)
		}
		s.fsOf = func(d string) storage.FileSystem { return storage.NewLocalFilesystem(base + "/" + d) }
	}
	if sched == "gated" && fskind == "sim" {
		s.gated = true
		s.w.Gate(s.gate())
	}
	t.Begin(tr.M{"mode": mode, "sched": sched, "fs": fskind, "mem": opt.MemTableSize, "wal": min(opt.MaxWALSize, 1<<30),
		"target": opt.TargetFileSize, "l0": opt.L0TableNumCompactionTrigger, "nkeys": len(s.keys)})
	if s.w != nil {
		s.hook(s.w)
	}
	return s
}

func (s *sim) gate() func(op, p string) bool {
	// which operations are held back varies per trace
	what := pick(s.r, ".sst", ".wal", "checkpoints", "all", "all")
	return func(op, p string) bool { return op == "save" && (what == "all" || strings.HasSuffix(p, what)) }
}

func (s *sim) hook(w *simfs.World) {
	w.OnOp = func(op, p string) {
		s.mu.Lock()
		defer s.mu.Unlock()
		if s.ended.Load() || s.w != w { // an abandoned instance still at work in the world before the crash
			return
		}
		if op == "delete" {
			t.Ev("Rm", tr.M{"f": p})
		}
		if s.snapP > 0 && len(s.snaps) < 6 && rand.Float64() < s.snapP {
			rr := map[int]bool{}
			for k := range s.retained {
				rr[k] = true
			}
			s.snaps = append(s.snaps, snap{w.Snapshot(), len(s.handles), rr})
		}
	}
}

// fg runs a foreground step; when it cannot proceed because background work is held back,
// background work is let through.
func (s *sim) fg(f func()) (p string) {
	if !s.gated {
		return tr.Guard(f)
	}
	done := make(chan string, 1)
	go func() { done <- tr.Guard(f) }()
	start := time.Now()
	for i := 0; ; i++ {
		select {
		case p = <-done:
			return p
		default:
		}
		runtime.Gosched()
		if i > 60 && i%20 == 0 {
			if ws := s.w.Waiting(); len(ws) > 0 {
				s.w.Release(ws[0])
			} else if i > 5000 {
				time.Sleep(100 * time.Microsecond)
			}
		}
		if time.Since(start) > 20*time.Second {
			return "stuck: a foreground operation does not return"
		}
	}
}

func (s *sim) background() {
	if s.gated {
		for range s.r.Intn(3) {
			ws := s.w.Waiting()
			if len(ws) == 0 {
				break
			}
			s.w.Release(ws[s.r.Intn(len(ws))])
			simfs.Settle()
		}
		return
	}
	switch s.r.Intn(4) {
	case 0:
		simfs.Settle()
	case 1:
		runtime.Gosched()
	}
}

func (s *sim) open(dir string, hs []*handle, own *owner) *dbx {
	d := &dbx{id: s.nextDB, dir: dir, own: own}
	s.nextDB++
	o := s.opt
	o.FileSystem = s.fsOf(dir)
	o.DataOwnership = own
	var rh []recovery.CheckpointHandle
	ids := []int{}
	for _, h := range hs {
		rh = append(rh, h.h)
		ids = append(ids, h.id)
		d.cks = append(d.cks, h.ck)
	}
	d.cks = slices.Compact(d.cks)
	p := s.fg(func() { d.db = dkv.Open(o, rh) })
	t.Ev("Open", tr.M{"db": d.id, "hs": ids, "lo": own.lo, "hi": own.hi, "panic": p})
	if p != "" {
		return nil
	}
	s.live = append(s.live, d)
	return d
}

func (s *sim) put(d *dbx, k, v []byte) {
	p := s.fg(func() { d.db.Put(k, v) })
	t.Ev("Put", tr.M{"db": d.id, "k": tr.Bytes(k), "v": vs(v), "panic": p})
}
func (s *sim) del(d *dbx, k []byte) {
	p := s.fg(func() { d.db.Delete(k) })
	t.Ev("Del", tr.M{"db": d.id, "k": tr.Bytes(k), "panic": p})
}

func getRes(db *dkv.DB, k []byte) (res, p string) {
	p = tr.Guard(func() {
		e, err := db.Get(k)
		switch {
		case errors.Is(err, kv.ErrNotFound):
			res = "-"
		case err != nil:
			res = "error: " + err.Error()
		case !bytes.Equal(e.Key(), k):
			res = "wrong key"
		case e.IsDelete():
			res = "-"
		default:
			res = vs(e.Value())
		}
	})
	return
}

type pair = [2]any

func scanRes(db *dkv.DB, pre []byte, between func(i int)) (out []pair, p string) {
	out = []pair{}
	p = tr.Guard(func() {
		var serr error
		i := 0
		for e := range db.ScanPrefix(pre, &serr) {
			if e.IsDelete() {
				out = append(out, pair{tr.Bytes(e.Key()), "deleted"})
			} else {
				out = append(out, pair{tr.Bytes(e.Key()), vs(e.Value())})
			}
			if between != nil {
				between(i)
			}
			i++
		}
		if serr != nil {
			panic(serr)
		}
	})
	return
}

func (s *sim) get(d *dbx, k []byte) {
	var res string
	p := s.fg(func() {
		var q string
		res, q = getRes(d.db, k)
		if q != "" {
			panic(q)
		}
	})
	t.Ev("Get", tr.M{"db": d.id, "k": tr.Bytes(k), "res": res, "panic": p})
}

func (s *sim) scan(d *dbx, pre []byte, live bool) {
	var out []pair
	var between func(int)
	if live { // background work proceeds while the scan is being consumed
		between = func(int) { s.background() }
	}
	var p string
	if s.gated && live {
		out, p = scanRes(d.db, pre, between) // consumed here; background released from here
	} else {
		p = s.fg(func() {
			var q string
			out, q = scanRes(d.db, pre, between)
			if q != "" {
				panic(q)
			}
		})
	}
	if out == nil {
		out = []pair{}
	}
	t.Ev("Scan", tr.M{"db": d.id, "p": tr.Bytes(pre), "out": out, "panic": p})
}

func (s *sim) anyKey() []byte { return s.keys[s.r.Intn(len(s.keys))] }
func (s *sim) ownedKey(d *dbx) []byte {
	for range 200 {
		if k := s.anyKey(); d.own.OwnsKey(k) {
			return k
		}
	}
	return nil
}

func (s *sim) prefix(d *dbx) []byte {
	k := s.ownedKey(d)
	lo := 0
	if d.own.lo >= 0 {
		lo = 2
	}
	if len(k) < lo {
		return nil
	}
	n := lo + s.r.Intn(len(k)-lo+1)
	p := slices.Clone(k[:n])
	if s.r.Intn(4) == 0 {
		p = append(p, pick[byte](s.r, 0, 0xff, 'a', 0x80))
	}
	return p
}

// absent keys next to present ones
func (s *sim) probe(d *dbx) []byte {
	k := slices.Clone(s.ownedKey(d))
	if d.own.lo < 0 || len(k) > 2 {
		switch s.r.Intn(3) {
		case 0:
			return append(k, 0)
		case 1:
			if len(k) > 0 && d.own.lo < 0 {
				return k[:len(k)-1]
			}
		}
	}
	return k
}

func (s *sim) ckpt(d *dbx, id uint64) *pendCk {
	c := &pendCk{d: d, ck: id, done: make(chan struct{})}
	var wait func() (recovery.CheckpointHandle, error)
	p := s.fg(func() { wait = d.db.Checkpoint(id) })
	t.Ev("Ckpt", tr.M{"db": d.id, "ck": id, "panic": p})
	if p != "" {
		return nil
	}
	d.cks = append(d.cks, id)
	go func() {
		h, err := wait()
		if err != nil {
			c.err = err.Error()
		}
		c.h = h
		close(c.done)
	}()
	d.pend = append(d.pend, c)
	return c
}

// finish logs checkpoints that completed; all: waits for every pending one.
func (s *sim) finish(d *dbx, all bool) (got []*handle) {
	var rest []*pendCk
	for _, c := range d.pend {
		if all {
			if s.fg(func() { <-c.done }) != "" {
				t.Ev("Err", tr.M{"what": "checkpoint never completes"})
				continue
			}
		}
		select {
		case <-c.done:
			if c.err != "" {
				if s.faults {
					continue
				}
				t.Ev("Err", tr.M{"what": "checkpoint failed: " + c.err})
				continue
			}
			h := &handle{id: s.nextH, ck: c.ck, h: c.h, own: d.own}
			s.nextH++
			t.Ev("Done", tr.M{"db": d.id, "ck": c.ck, "h": h.id, "idok": c.h.CheckpointID == c.ck})
			s.mu.Lock()
			s.handles = append(s.handles, h)
			s.retained[h.id] = true
			s.mu.Unlock()
			got = append(got, h)
		default:
			rest = append(rest, c)
		}
	}
	d.pend = rest
	return
}

// peek restores handles in a copy of the storage as it is in w and reads everything.
func (s *sim) peek(w *simfs.World, hs []*handle, own *owner) (reads []string) {
	c := w.Snapshot()
	c.TraceReads()
	o := dkv.DBOptions{FileSystem: c.FS("peek"), MemTableSize: 1 << 30, MaxWALSize: 1 << 30, Logger: quiet,
		DataOwnership: &owner{s: s, lo: own.lo, hi: own.hi, peers: func() []*dbx { return nil }}}
	var rh []recovery.CheckpointHandle
	ids := []int{}
	for _, h := range hs {
		rh = append(rh, h.h)
		ids = append(ids, h.id)
	}
	var db *dkv.DB
	var out = []pair{}
	gets := []pair{}
	p := tr.Guard(func() {
		db = dkv.Open(o, rh)
		var q string
		for _, pre := range s.prefixes(own) {
			var o2 []pair
			if o2, q = scanRes(db, pre, nil); q != "" {
				panic(q)
			}
			out = append(out, o2...)
		}
		for _, k := range s.keys {
			if own.OwnsKey(k) && s.r.Intn(2) == 0 {
				res, q := getRes(db, k)
				if q != "" {
					panic(q)
				}
				gets = append(gets, pair{tr.Bytes(k), res})
			}
		}
		// a table may also be needed although it holds no owned key: read everything
		if _, q = scanRes(db, nil, nil); q != "" {
			panic(q)
		}
	})
	t.Ev("Peek", tr.M{"hs": ids, "lo": own.lo, "hi": own.hi, "out": out, "gets": gets, "panic": p})
	return c.Reads()
}

func (s *sim) prefixes(own *owner) [][]byte {
	if own.lo < 0 {
		return [][]byte{{}}
	}
	var r [][]byte
	for g := own.lo; g < own.hi; g++ {
		r = append(r, []byte{byte(g >> 8), byte(g)})
	}
	return r
}

var all = &owner{lo: -1, hi: -1, peers: func() []*dbx { return nil }}

func (s *sim) refs(h *handle) {
	if s.w == nil {
		return
	}
	fs := []string{}
	for _, f := range s.peek(s.w, []*handle{h}, h.own) {
		if strings.HasSuffix(f, ".sst") || strings.HasSuffix(f, ".wal") {
			fs = append(fs, f)
		}
	}
	t.Ev("Refs", tr.M{"h": h.id, "files": fs})
}

func (s *sim) takeSnaps() {
	s.mu.Lock()
	sn := s.snaps
	s.snaps = nil
	s.mu.Unlock()
	for _, x := range sn {
		for _, h := range s.handles[:x.n] {
			if x.r[h.id] && s.retained[h.id] && s.r.Intn(3) > 0 {
				s.peek(x.w, []*handle{h}, h.own)
			}
		}
	}
}

func (s *sim) kept() (r []*handle) {
	for _, h := range s.handles {
		if s.retained[h.id] {
			r = append(r, h)
		}
	}
	return
}

// retain tells every live database which checkpoint ids are retained.
func (s *sim) retain(ids []uint64, dbs []*dbx) {
	keep := []int{}
	s.mu.Lock()
	for _, h := range s.handles {
		if !s.retained[h.id] {
			continue
		}
		if slices.Contains(ids, h.ck) || h.ck > slices.Max(ids) {
			keep = append(keep, h.id)
		} else {
			delete(s.retained, h.id)
			if slices.ContainsFunc(dbs, func(d *dbx) bool { return slices.Contains(d.cks, h.ck) }) {
				s.gone = append(s.gone, h.id)
			}
		}
	}
	s.mu.Unlock()
	// A checkpoint still under way that is older than the newest retained one is superseded: the job
	// has given it up, so it never becomes a checkpoint to restore from.
	for _, d := range dbs {
		d.pend = slices.DeleteFunc(d.pend, func(c *pendCk) bool { return !slices.Contains(ids, c.ck) && c.ck < slices.Max(ids) })
	}
	t.Ev("Drop", tr.M{"keep": keep})
	okAll := true
	for _, d := range dbs {
		var err error
		p := s.fg(func() { err = d.db.UpdateRetainedCheckpoints(ids) })
		e := p
		if err != nil && !s.faults {
			e = "error: " + err.Error()
		}
		if err != nil {
			okAll = false
		}
		t.Ev("Dropped", tr.M{"db": d.id, "panic": e})
		d.cks = slices.DeleteFunc(d.cks, func(c uint64) bool { return !slices.Contains(ids, c) && c < slices.Max(ids) })
	}
	if s.w != nil && okAll {
		t.Ev("Files", tr.M{"gone": s.gone, "files": s.w.Files()})
		s.gone = []int{}
	}
}

func (s *sim) end() {
	if s.w != nil {
		s.w.Fail(nil)
		s.w.OpenGates()
		s.gated = false
	}
	for range 3 {
		for _, d := range s.live {
			var err error
			p := s.fg(func() { err = d.db.WaitOnTasks() })
			if p != "" || (err != nil && !s.faults) {
				t.Ev("Err", tr.M{"what": fmt.Sprint("background work failed: ", p, err)})
			}
		}
	}
}

func (s *sim) abandon() {
	s.mu.Lock()
	s.ended.Store(true)
	s.mu.Unlock()
	if s.w != nil { // background queues are shared by the whole process: leave none blocked
		s.w.Fail(nil)
		s.w.OpenGates()
	}
	simfs.Settle()
}

func (s *sim) fullRead(d *dbx) {
	for _, p := range s.prefixes(d.own) {
		s.scan(d, p, false)
	}
	for _, k := range s.keys {
		if d.own.OwnsKey(k) {
			s.get(d, k)
		}
	}
}

func (s *sim) simpleOwner() *owner {
	return &owner{s: s, lo: -1, hi: -1, peers: func() []*dbx { return nil }}
}

func procs(sched string) {
	if sched == "par" {
		runtime.GOMAXPROCS(4)
	} else {
		runtime.GOMAXPROCS(1)
	}
}

func main() {
	t = tr.New()
	slog.SetDefault(quiet)
	switch os.Args[1] {
	case "c07":
		c07()
	case "c07stress":
		c07stress()
	case "c08":
		c08()
	case "c09":
		c09()
	case "multi":
		multi()
	case "shared":
		shared()
	}
	fmt.Printf("%d traces, %d events\n", t.Traces, t.Events)
}
