// Driver for the snapshot store: histories of checkpoints, savepoints, acknowledgements (good and bad),
// crashes and restarts over real storage locations whose operations are held back and cut.
package main

import (
	"bytes"
	"context"
	"encoding/hex"
	"errors"
	"fmt"
	"io"
	"log/slog"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"slices"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/aws/aws-sdk-go-v2/service/s3"
	"google.golang.org/protobuf/proto"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	dkvstorage "reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/partitioning"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/storage/locations"
	"reduction.dev/reduction/storage/objstore"
	"reduction.dev/reduction/storage/snapshots"
	"reduction.dev/reduction/zzverif/cl"
	"reduction.dev/reduction/zzverif/tr"
)

const groups = 8

var all *tr.T

func main() {
	cl.Quiet()
	all = tr.New()
	mode := "ack"
	if len(os.Args) > 1 {
		mode = os.Args[1]
	}
	n := map[string]int{"ack": tr.Pick(240, 1500), "pub": tr.Pick(240, 1500), "save": tr.Pick(220, 1200), "reuse": 2, "names": tr.Pick(24, 120)}[mode]
	tr.Parallel(n, 12, func(i int) {
		r := tr.Rand(int64(i) + 7919*int64(len(mode)+int(mode[0])))
		switch mode {
		case "reuse":
			reuse(r)
		case "names":
			names(r, i)
		default:
			history(r, mode, i)
		}
	})
	fmt.Printf("%d traces, %d events\n", all.Traces, all.Events)
}

// ---- storage ------------------------------------------------------------------------------

// lockedS3 makes the in-memory service usable by several goroutines.
type lockedS3 struct {
	mu sync.Mutex
	objstore.S3Service
}

func (l *lockedS3) CopyObject(c context.Context, in *s3.CopyObjectInput, o ...func(*s3.Options)) (*s3.CopyObjectOutput, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.S3Service.CopyObject(c, in, o...)
}
func (l *lockedS3) GetObject(c context.Context, in *s3.GetObjectInput, o ...func(*s3.Options)) (*s3.GetObjectOutput, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.S3Service.GetObject(c, in, o...)
}
func (l *lockedS3) HeadObject(c context.Context, in *s3.HeadObjectInput, o ...func(*s3.Options)) (*s3.HeadObjectOutput, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.S3Service.HeadObject(c, in, o...)
}
func (l *lockedS3) ListObjectsV2(c context.Context, in *s3.ListObjectsV2Input, o ...func(*s3.Options)) (*s3.ListObjectsV2Output, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.S3Service.ListObjectsV2(c, in, o...)
}
func (l *lockedS3) PutObject(c context.Context, in *s3.PutObjectInput, o ...func(*s3.Options)) (*s3.PutObjectOutput, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.S3Service.PutObject(c, in, o...)
}
func (l *lockedS3) DeleteObject(c context.Context, in *s3.DeleteObjectInput, o ...func(*s3.Options)) (*s3.DeleteObjectOutput, error) {
	l.mu.Lock()
	defer l.mu.Unlock()
	return l.S3Service.DeleteObject(c, in, o...)
}

type store struct {
	kind string
	dir  string
	svc  *lockedS3
}

const s3Root = "bucket/jobs/j1"

func newStore(kind string) *store {
	s := &store{kind: kind}
	if kind == "local" {
		s.dir = cl.Scratch()
	} else {
		s.svc = &lockedS3{S3Service: objstore.NewMemoryS3Service()}
	}
	return s
}

func (s *store) location() locations.StorageLocation {
	if s.kind == "local" {
		return locations.NewLocalDirectory(s.dir)
	}
	l, err := locations.NewS3Location(s.svc, "s3://"+s3Root)
	if err != nil {
		panic(err)
	}
	return l
}

func (s *store) fs(dir string) dkvstorage.FileSystem {
	if s.kind == "local" {
		return dkvstorage.NewLocalFilesystem(filepath.Join(s.dir, "working", dir))
	}
	return dkvstorage.NewS3FileSystem(s.svc, "bucket", "jobs/j1/working/"+dir)
}

// mortal is the file system of one incarnation: once it died, nothing changes any more, whatever the
// garbage collector finds to clean up.
type mortal struct {
	dkvstorage.FileSystem
	l *loc
}
type mortalFile struct {
	dkvstorage.File
	l *loc
}

var errGone = errors.New("gone")

func (l *loc) alive(f func() error) error {
	l.fsMu.RLock()
	defer l.fsMu.RUnlock()
	if l.dead.Load() {
		return errGone
	}
	return f()
}
func (m mortal) New(p string) dkvstorage.File  { return mortalFile{m.FileSystem.New(p), m.l} }
func (m mortal) Open(p string) dkvstorage.File { return mortalFile{m.FileSystem.Open(p), m.l} }
func (m mortal) Copy(a, b string) error {
	return m.l.alive(func() error { return m.FileSystem.Copy(a, b) })
}
func (f mortalFile) Save() error   { return f.l.alive(f.File.Save) }
func (f mortalFile) Delete() error { return f.l.alive(f.File.Delete) }
func (f mortalFile) CreateDeleteFunc() func() error {
	del, l := f.File.CreateDeleteFunc(), f.l
	return func() error { return l.alive(del) }
}

// wipe deletes everything but the savepoint.
func (s *store) wipe(sp *spt) {
	keep := strings.TrimSuffix(sp.uri, "job.savepoint")
	if s.kind == "local" {
		for _, d := range []string{s.dir, filepath.Join(s.dir, "savepoints")} {
			es, _ := os.ReadDir(d)
			for _, e := range es {
				if p := filepath.Join(d, e.Name()); e.Name() != "savepoints" && p != filepath.Clean(keep) {
					os.RemoveAll(p)
				}
			}
		}
		return
	}
	l := s.location()
	for uri := range l.List() {
		if !strings.HasPrefix(uri, keep) {
			l.Remove(uri)
		}
	}
}

type op struct {
	what string
	go_  chan int // 0: proceed; n > 0: crash after n bytes or paths
}

// loc is what one incarnation of the job sees of the storage.
type loc struct {
	locations.StorageLocation
	h       *hist
	dead    atomic.Bool
	fsMu    sync.RWMutex
	gate    atomic.Bool
	fail    atomic.Int32 // writes that will fail
	mu      sync.Mutex
	waiting []*op
	busy    atomic.Int32
}

func (l *loc) enter(what string) int {
	if l.dead.Load() {
		runtime.Goexit()
	}
	cut := 0
	if l.gate.Load() {
		o := &op{what, make(chan int, 1)}
		l.mu.Lock()
		l.waiting = append(l.waiting, o)
		l.mu.Unlock()
		cut = <-o.go_
	}
	if cut < 0 || (cut == 0 && l.dead.Load()) {
		runtime.Goexit()
	}
	return cut
}

// release lets one held back operation proceed; it reports whether there was one.
func (l *loc) release(i, cut int) bool {
	l.mu.Lock()
	defer l.mu.Unlock()
	if len(l.waiting) == 0 {
		return false
	}
	i %= len(l.waiting)
	o := l.waiting[i]
	l.waiting = slices.Delete(l.waiting, i, i+1)
	o.go_ <- cut
	return true
}
func (l *loc) held() int { l.mu.Lock(); defer l.mu.Unlock(); return len(l.waiting) }

// kill ends the incarnation: nothing it had under way has an effect any more.
func (l *loc) kill() {
	l.h.mu.Lock()
	l.fsMu.Lock()
	l.dead.Store(true)
	l.fsMu.Unlock()
	l.h.mu.Unlock()
	for l.release(0, -1) {
	}
}

type cutReader struct {
	b    []byte
	done chan struct{}
}

func (c *cutReader) Read(p []byte) (int, error) {
	if len(c.b) == 0 {
		close(c.done)
		runtime.Goexit()
	}
	n := copy(p, c.b)
	c.b = c.b[n:]
	return n, nil
}

func (l *loc) Write(p string, rd io.Reader) (string, error) {
	cut := l.enter("write")
	b, err := io.ReadAll(rd)
	if err != nil {
		return "", err
	}
	h := l.h
	if cut > 0 { // the process dies in the middle of the write
		l.dead.Store(true)
		c := &cutReader{b[:min(cut-1, len(b))], make(chan struct{})}
		l.StorageLocation.Write(p, c)
		runtime.Goexit()
	}
	var ck snapshotpb.JobCheckpoint
	snap := strings.HasSuffix(p, ".snapshot") && proto.Unmarshal(b, &ck) == nil
	if l.fail.Load() > 0 {
		l.fail.Add(-1)
		h.mu.Lock()
		defer h.mu.Unlock()
		if l.dead.Load() {
			runtime.Goexit()
		}
		if snap {
			h.ev("Fail", tr.M{"id": h.id(ck.Id)})
			h.failed[ck.Id] = true
			h.written++
		}
		return "", errors.New("injected storage failure")
	}
	h.mu.Lock()
	defer h.mu.Unlock()
	if l.dead.Load() {
		runtime.Goexit()
	}
	uri, err := l.StorageLocation.Write(p, bytes.NewReader(b))
	if err == nil && snap {
		h.paths[p], h.paths[uri] = ck.Id, ck.Id
		h.written++
		if int(h.id(ck.Id)) > h.newest {
			h.newest = h.id(ck.Id)
		}
		m := h.content(&ck)
		m["id"] = h.id(ck.Id)
		h.ev("Write", m)
	}
	return uri, err
}

func (l *loc) Remove(paths ...string) error {
	cut := l.enter("remove")
	h := l.h
	h.mu.Lock()
	defer h.mu.Unlock()
	if cut == 0 && l.dead.Load() {
		runtime.Goexit()
	}
	if cut > 0 {
		l.dead.Store(true)
		paths = paths[:min(len(paths), cut-1)]
	}
	ids := []int{}
	for _, p := range paths {
		if id, ok := h.paths[p]; ok {
			ids = append(ids, h.id(id))
		}
	}
	err := l.StorageLocation.Remove(paths...)
	h.ev("Remove", tr.M{"ids": ids})
	if cut > 0 {
		runtime.Goexit()
	}
	return err
}

func (l *loc) Copy(src, dst string) error {
	if l.enter("copy") > 0 {
		l.dead.Store(true)
		runtime.Goexit()
	}
	l.h.mu.Lock()
	defer l.h.mu.Unlock()
	if l.dead.Load() {
		runtime.Goexit()
	}
	return l.StorageLocation.Copy(src, dst)
}
func (l *loc) Read(p string) ([]byte, error) {
	if l.enter("read") > 0 {
		l.dead.Store(true)
		runtime.Goexit()
	}
	return l.StorageLocation.Read(p)
}

// ---- history ------------------------------------------------------------------------------

type splitter struct {
	connectors.UnimplementedSourceSplitter
	h *hist
}

func (s *splitter) Checkpoint() []byte {
	s.h.splitterN.Add(1)
	b := fmt.Sprintf("splitter%d", s.h.splitterN.Load())
	s.h.ev("Splitter", tr.M{"st": b})
	return []byte(b)
}

type node struct {
	name   string
	db     *dkv.DB
	lo, hi int
	cut    func() (recovery.CheckpointHandle, error) // data: barrier passed, not yet acknowledged
	cutID  uint64
	keep   [][]uint64 // retention updates under way
}

type hist struct {
	r         *tr.R
	rng       *rand.Rand
	mode      string
	st        *store
	base      uint64
	mu        sync.Mutex // storage effects in the order of their events
	paths     map[string]uint64
	written   int // snapshots written by this incarnation
	newest    int
	splitterN atomic.Int32

	l        *loc
	s        *snapshots.Store
	retained chan []uint64
	errs     chan error
	ops      []*node
	srs      []string
	nameN    int
	dirN     int
	tagN     int
	shared   *dkv.DB // not in data mode: operators acknowledge a checkpoint of this database
	// the driver's own view, to choose useful steps and to know what to wait for
	pend    uint64
	pendOps map[string]bool
	pendSRs map[string]bool
	pendSP  bool
	past    []uint64 // ids of the past
	oldOps  []string
	oldSRs  []string
	sps     []spt
	spWant  []uint64
	expect  int
	failed  map[uint64]bool
	told    int // last retention notification
}
type spt struct {
	id  uint64
	uri string
}

func (h *hist) id(x uint64) int           { return int(int64(x - h.base)) }
func (h *hist) ev(n string, m tr.M)       { h.r.Ev(n, m) }
func (h *hist) data() bool                { return h.mode == "save" }
func (h *hist) name(p string) string      { h.nameN++; return fmt.Sprintf("%s%d", p, h.nameN) }
func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }
func (h *hist) chance(n int) bool         { return h.rng.Intn(n) == 0 }

func (h *hist) content(ck *snapshotpb.JobCheckpoint) tr.M {
	ops := [][]any{}
	for _, o := range ck.GetOperatorCheckpoints() {
		ops = append(ops, []any{o.OperatorId, int(o.KeyGroupRange.GetStart()), int(o.KeyGroupRange.GetEnd())})
	}
	splits := []string{}
	st := ""
	for i, s := range ck.GetSourceCheckpoints() {
		for _, x := range s.SplitStates {
			splits = append(splits, string(x))
		}
		if i > 0 {
			st += "+"
		}
		st += string(s.SplitterState)
	}
	return tr.M{"ops": ops, "splits": splits, "st": st}
}

// do runs a call into the store that may have to wait for held back storage operations.
func (h *hist) do(f func()) string {
	done := make(chan string, 1)
	go func() { done <- tr.Guard(f) }()
	start := time.Now()
	for i := 0; ; i++ {
		select {
		case p := <-done:
			return p
		default:
		}
		if time.Since(start) > 20*time.Second {
			return "stuck: the call does not return"
		}
		if i > 200 {
			time.Sleep(20 * time.Microsecond)
			if i%50 == 0 {
				h.l.release(0, 0)
			}
			if i%400 == 0 {
				h.receive()
			}
		} else {
			runtime.Gosched()
		}
	}
}

func settle() {
	for range 40 {
		runtime.Gosched()
	}
	time.Sleep(time.Duration(50) * time.Microsecond)
}

// boot starts the job: from the savepoint when uri isn't empty, else from what is in storage.
func (h *hist) boot(sp *spt) bool {
	h.l = &loc{StorageLocation: h.st.location(), h: h}
	h.retained = make(chan []uint64)
	h.errs = make(chan error, 1000)
	uri, spID := "", 0
	if sp != nil {
		uri, spID = sp.uri, h.id(sp.id)
	}
	h.s = snapshots.NewStore(&snapshots.NewStoreParams{
		SavepointURI: uri, FileStore: h.l, SavepointsPath: "savepoints", CheckpointsPath: "checkpoints",
		ErrChan: h.errs, RetainedCheckpointsUpdated: h.retained,
	})
	h.pend, h.spWant, h.expect, h.written, h.told = 0, nil, 0, 0, -1
	var err error
	p := h.do(func() { err = h.s.LoadCheckpoint() })
	if p == "" && err != nil {
		p = "error: " + err.Error()
	}
	m := tr.M{"from": uri != "", "sp": spID, "fail": p, "id": -1, "ops": [][]any{}, "splits": []string{}, "st": ""}
	var ck *snapshotpb.JobCheckpoint
	if p == "" {
		if ck = h.s.CurrentCheckpoint(); ck != nil {
			m = h.content(ck)
			m["from"], m["sp"], m["fail"], m["id"] = uri != "", spID, "", h.id(ck.Id)
			h.newest = h.id(ck.Id)
		} else {
			h.newest = -1
		}
	}
	h.ev("Boot", m)
	if p != "" {
		return false
	}
	h.mu.Lock()
	h.assemble(ck)
	h.mu.Unlock()
	if pick(h.rng, 0, 0, 1) > 0 || h.mode != "ack" {
		h.l.gate.Store(true)
	}
	return true
}

// assemble makes a new assembly (at start, or when the members changed).
func (h *hist) assemble(ck *snapshotpb.JobCheckpoint) {
	h.s.RegisterSourceSplitter(&splitter{h: h})
	for _, o := range h.ops {
		h.oldOps = append(h.oldOps, o.name)
	}
	h.oldSRs = append(h.oldSRs, h.srs...)
	nops := 1 + h.rng.Intn(3)
	h.ops, h.srs = nil, nil
	rs := partitioning.NewKeySpace(groups, nops).KeyGroupRanges()
	var cr []partitioning.KeyGroupRange
	if h.data() {
		for _, o := range ck.GetOperatorCheckpoints() {
			cr = append(cr, partitioning.KeyGroupRangeFromProto(o.KeyGroupRange))
		}
	}
	as := partitioning.AssignRanges(rs, cr)
	for i := range nops {
		n := &node{name: h.name("op"), lo: int(rs[i].Start), hi: int(rs[i].End)}
		h.ops = append(h.ops, n)
		if !h.data() {
			continue
		}
		var hs []recovery.CheckpointHandle
		for _, j := range as[i] {
			o := ck.OperatorCheckpoints[j]
			hs = append(hs, recovery.CheckpointHandle{CheckpointID: o.CheckpointId, URI: o.DkvFileUri})
		}
		h.dirN++
		p := tr.Guard(func() { n.db = dkv.Open(h.options(fmt.Sprintf("d%d", h.dirN), &own{h: h, l: h.l, n: n}), hs) })
		if p != "" {
			h.ev("Broken", tr.M{"what": p})
			return
		}
	}
	for range 1 + h.rng.Intn(3) {
		h.srs = append(h.srs, h.name("sr"))
	}
	if h.data() {
		pairs := [][]any{}
		for i, n := range h.ops {
			if n.db == nil {
				return
			}
			var err error
			p := tr.Guard(func() {
				for e := range n.db.ScanPrefix(nil, &err) {
					if k := e.Key(); n.lo <= int(k[0]) && int(k[0]) < n.hi {
						pairs = append(pairs, []any{i, hex.EncodeToString(k), string(e.Value())})
					}
				}
			})
			if err != nil || p != "" {
				h.ev("Broken", tr.M{"what": fmt.Sprint(err, p)})
				return
			}
		}
		id := -1
		if ck != nil {
			id = h.id(ck.Id)
		}
		h.ev("Restored", tr.M{"id": id, "pairs": pairs})
	}
}

func (h *hist) options(dir string, o *own) dkv.DBOptions {
	return dkv.DBOptions{
		FileSystem: mortal{h.st.fs(dir), h.l}, DataOwnership: o, Logger: quiet,
		MemTableSize: pick[uint64](h.rng, 40, 80, 200, 4000), TargetFileSize: pick[uint64](h.rng, 60, 200, 100000),
		MaxWALSize: pick[uint64](h.rng, 100, 1<<20), L0TableNumCompactionTrigger: pick(h.rng, 1, 2, 3),
	}
}

var quiet = slog.New(slog.NewTextHandler(io.Discard, nil))

type own struct {
	h *hist
	l *loc
	n *node
}

func (o *own) OwnsKey(k []byte) bool { return o.n.lo <= int(k[0]) && int(k[0]) < o.n.hi }
func (o *own) ExclusivelyOwnsTable(uri string, a, b []byte) (bool, error) {
	if o.l.dead.Load() || o.h.l != o.l {
		return false, errors.New("gone")
	}
	o.h.mu.Lock()
	ops := slices.Clone(o.h.ops)
	o.h.mu.Unlock()
	for _, n := range ops {
		if n != o.n && (n.db == nil || n.db.NeedsTable(uri)) {
			return false, nil
		}
	}
	return true, nil
}

func (h *hist) opIDs() []string {
	var ids []string
	for _, o := range h.ops {
		ids = append(ids, o.name)
	}
	return ids
}

func set(xs []string) map[string]bool {
	m := map[string]bool{}
	for _, x := range xs {
		m[x] = true
	}
	return m
}

func (h *hist) begin(id uint64, sp bool) {
	h.pend, h.pendSP = id, sp
	h.pendOps, h.pendSRs = set(h.opIDs()), set(h.srs)
}

func (h *hist) create() {
	ops, srs := h.opIDs(), h.srs
	var id uint64
	var err error
	p := h.do(func() { id, err = h.s.CreateCheckpoint(ops, srs) })
	h.ev("Create", tr.M{"ok": err == nil && p == "", "panic": p, "id": h.id(id), "ops": ops, "srs": srs})
	if err == nil && p == "" {
		h.begin(id, false)
	}
}

func (h *hist) savepoint() {
	ops, srs := h.opIDs(), h.srs
	var id uint64
	var created bool
	var err error
	p := h.do(func() { id, created, err = h.s.CreateSavepoint(ops, srs) })
	h.ev("Savepoint", tr.M{"ok": err == nil && p == "", "panic": p, "created": created, "id": h.id(id), "ops": ops, "srs": srs})
	if err == nil && p == "" {
		if created {
			h.begin(id, true)
		}
		h.pendSP = true
	}
}

// acked updates the driver's view.
func (h *hist) acked() {
	if h.pend != 0 && len(h.pendOps)+len(h.pendSRs) == 0 {
		h.past = append(h.past, h.pend)
		if h.pendSP {
			h.spWant = append(h.spWant, h.pend)
		}
		h.expect++
		h.pend = 0
	}
}

type ack struct {
	op     bool
	who    string
	ck     uint64
	tag    int
	splits []string
	req    *snapshotpb.OperatorCheckpoint
	src    *jobpb.SourceRunnerCheckpointCompleteRequest
}

func (h *hist) opAck(who string, ck uint64) *ack {
	h.tagN++
	a := &ack{op: true, who: who, ck: ck, tag: h.tagN}
	hd, err := h.shared.Checkpoint(ck)()
	if err != nil {
		panic(err)
	}
	a.req = &snapshotpb.OperatorCheckpoint{CheckpointId: ck, OperatorId: who, DkvFileUri: hd.URI,
		KeyGroupRange: &snapshotpb.KeyGroupRange{Start: int32(a.tag), End: int32(a.tag + 1)}}
	return a
}

func (h *hist) srAck(who string, ck uint64) *ack {
	h.tagN++
	a := &ack{who: who, ck: ck, tag: h.tagN, splits: []string{}}
	b := [][]byte{}
	for i := range h.rng.Intn(3) {
		s := fmt.Sprintf("s%d.%d", h.tagN, i)
		a.splits = append(a.splits, s)
		b = append(b, []byte(s))
	}
	a.src = &jobpb.SourceRunnerCheckpointCompleteRequest{CheckpointId: ck, SourceRunnerId: who, SplitStates: b}
	return a
}

func (h *hist) send(as ...*ack) {
	m := []tr.M{}
	for _, a := range as {
		x := tr.M{"op": a.op, "who": a.who, "ck": h.id(a.ck), "splits": []string{}, "lo": 0, "hi": 0}
		if a.op {
			x["lo"], x["hi"] = int(a.req.KeyGroupRange.Start), int(a.req.KeyGroupRange.End)
		} else {
			x["splits"] = a.splits
		}
		m = append(m, x)
		if a.ck == h.pend && h.pend != 0 {
			if a.op {
				delete(h.pendOps, a.who)
			} else {
				delete(h.pendSRs, a.who)
			}
		}
	}
	h.ev("Acks", tr.M{"acks": m})
	var bad atomic.Pointer[string]
	p := h.do(func() {
		if len(as) == 1 {
			h.deliver(as[0])
			return
		}
		var wg sync.WaitGroup
		for _, a := range as {
			wg.Add(1)
			go func() {
				defer wg.Done()
				if p := tr.Guard(func() { h.deliver(a) }); p != "" {
					bad.Store(&p)
				}
			}()
		}
		wg.Wait()
		if p := bad.Load(); p != nil {
			panic(*p)
		}
	})
	h.ev("Acked", tr.M{"panic": p})
	h.acked()
}

func (h *hist) deliver(a *ack) {
	if a.op {
		h.s.AddOperatorSnapshot(proto.Clone(a.req).(*snapshotpb.OperatorCheckpoint))
	} else {
		h.s.AddSourceSnapshot(proto.Clone(a.src).(*jobpb.SourceRunnerCheckpointCompleteRequest))
	}
}

func some[T any](r *rand.Rand, xs []T, dflt T) T {
	if len(xs) == 0 {
		return dflt
	}
	return xs[r.Intn(len(xs))]
}

func (h *hist) goodAck() *ack {
	var ops, srs []string
	for _, o := range h.ops {
		if h.pendOps[o.name] {
			ops = append(ops, o.name)
		}
	}
	for _, s := range h.srs {
		if h.pendSRs[s] {
			srs = append(srs, s)
		}
	}
	if len(ops)+len(srs) == 0 {
		return nil
	}
	if i := h.rng.Intn(len(ops) + len(srs)); i < len(ops) {
		return h.opAck(ops[i], h.pend)
	} else {
		return h.srAck(srs[i-len(ops)], h.pend)
	}
}

// badAck: a duplicate, late, mismatched or foreign acknowledgement.
func (h *hist) badAck() *ack {
	ck := h.pend
	if ck == 0 || h.chance(2) {
		ck = some(h.rng, h.past, h.base+1)
		if h.chance(4) {
			ck = h.base + uint64(h.rng.Intn(20))
		}
	}
	if h.chance(2) {
		return h.opAck(pick(h.rng, some(h.rng, h.opIDs(), "x"), some(h.rng, h.oldOps, "opX"), "opX", h.srs[0]), ck)
	}
	return h.srAck(pick(h.rng, some(h.rng, h.srs, "x"), some(h.rng, h.oldSRs, "srX"), "srX", h.ops[0].name), ck)
}

// receive takes one retention notification when there is one.
func (h *hist) receive() bool {
	select {
	case ids := <-h.retained:
		m := []int{}
		for _, x := range append([]uint64{}, ids...) {
			m = append(m, h.id(x))
		}
		h.ev("Retain", tr.M{"ids": m})
		for _, n := range h.ops {
			n.keep = append(n.keep, ids)
		}
		if len(m) > 0 {
			h.told = slices.Max(m)
		}
		return true
	default:
		return false
	}
}

// quiet lets everything finish and looks at the outcome.
func (h *hist) quiet() {
	gated := h.l.gate.Load()
	h.l.gate.Store(false)
	pump := func() {
		for h.l.release(0, 0) {
		}
		h.receive()
	}
	cl.Wait(30*time.Second, func() bool { pump(); return h.quietDone() })
	for range 20 { // notifications and removals on their way
		settle()
		pump()
	}
	cl.Wait(10*time.Second, func() bool { pump(); return h.told == -1 || h.told == h.newest })
	for {
		select {
		case err := <-h.errs:
			h.ev("StoreError", tr.M{"what": err.Error()})
			continue
		default:
		}
		break
	}
	h.current(true)
	for _, id := range h.spWant {
		if h.failed[id] {
			continue
		}
		var uri string
		var err error
		cl.Wait(30*time.Second, func() bool {
			pump()
			uri, err = h.s.SavepointURIForID(id)
			return err == nil
		})
		h.ev("SpDone", tr.M{"id": h.id(id), "ok": err == nil})
		if err == nil {
			h.sps = append(h.sps, spt{id, uri})
		}
	}
	h.spWant = nil
	if gated {
		h.l.gate.Store(true)
	}
}

func (h *hist) quietDone() bool {
	h.mu.Lock()
	defer h.mu.Unlock()
	return h.written >= h.expect && h.l.held() == 0
}

func (h *hist) current(quiet bool) {
	var ck *snapshotpb.JobCheckpoint
	if quiet {
		cl.Wait(10*time.Second, func() bool {
			ck = h.s.CurrentCheckpoint()
			h.mu.Lock()
			defer h.mu.Unlock()
			return ck == nil && h.newest == -1 || ck != nil && h.id(ck.Id) == h.newest
		})
	} else {
		p := h.do(func() { ck = h.s.CurrentCheckpoint() })
		if p != "" {
			h.ev("Broken", tr.M{"what": p})
			return
		}
	}
	m := tr.M{"id": -1, "ops": [][]any{}, "splits": []string{}, "st": ""}
	if ck != nil {
		m = h.content(ck)
		m["id"] = h.id(ck.Id)
	}
	m["quiet"] = quiet
	h.ev("Current", m)
}

func (h *hist) stopDBs() {
	for _, n := range h.ops {
		if n.db != nil {
			tr.Guard(func() { n.db.WaitOnTasks(); n.db.Close() })
		}
	}
}

// crash: the job process dies, possibly in the middle of a storage operation.
func (h *hist) crash() {
	if h.chance(2) {
		if h.l.held() > 0 {
			h.l.release(h.rng.Intn(8), 1+pick(h.rng, 0, 1, 2, 7, 20, 60, 1000))
			cl.Wait(2*time.Second, func() bool { return h.l.dead.Load() })
			settle()
		}
	}
	h.l.kill()
	if h.pend != 0 {
		h.past = append(h.past, h.pend)
	}
	h.ev("Die", nil2)
	h.stopDBs()
}

var nil2 = tr.M{}

// ---- data ---------------------------------------------------------------------------------

func (h *hist) put() {
	n := h.ops[h.rng.Intn(len(h.ops))]
	if n.hi <= n.lo {
		return
	}
	k := []byte{byte(n.lo + h.rng.Intn(n.hi-n.lo)), byte(h.rng.Intn(3))}
	i := slices.Index(h.ops, n)
	if h.chance(4) {
		p := tr.Guard(func() { n.db.Delete(k) })
		h.ev("Put", tr.M{"op": i, "k": hex.EncodeToString(k), "v": "", "panic": p})
		return
	}
	h.tagN++
	v := fmt.Sprintf("v%d", h.tagN)
	if h.chance(5) {
		v += strings.Repeat("x", 60)
	}
	p := tr.Guard(func() { n.db.Put(k, []byte(v)) })
	h.ev("Put", tr.M{"op": i, "k": hex.EncodeToString(k), "v": v, "panic": p})
}

// dataStep: barriers pass, databases save, operators and source runners acknowledge.
func (h *hist) dataStep() {
	switch h.rng.Intn(8) {
	case 0, 1, 2:
		for range 1 + h.rng.Intn(6) {
			h.put()
		}
	case 3, 4:
		if h.pend == 0 {
			return
		}
		n := h.ops[h.rng.Intn(len(h.ops))]
		if n.cut == nil && h.pendOps[n.name] {
			h.ev("Barrier", tr.M{"op": slices.Index(h.ops, n), "id": h.id(h.pend)})
			n.cut, n.cutID = n.db.Checkpoint(h.pend), h.pend
		} else if n.cut != nil {
			f := n.cut
			n.cut = nil
			hd, err := f()
			if err != nil {
				h.ev("Broken", tr.M{"what": err.Error()})
				return
			}
			h.tagN++
			a := &ack{op: true, who: n.name, ck: n.cutID, tag: h.tagN}
			a.req = &snapshotpb.OperatorCheckpoint{CheckpointId: n.cutID, OperatorId: n.name, DkvFileUri: hd.URI,
				KeyGroupRange: &snapshotpb.KeyGroupRange{Start: int32(n.lo), End: int32(n.hi)}}
			h.send(a)
		}
	case 5:
		if h.pend != 0 {
			for _, s := range h.srs {
				if h.pendSRs[s] {
					h.send(h.srAck(s, h.pend))
					break
				}
			}
		}
	case 6:
		n := h.ops[h.rng.Intn(len(h.ops))]
		if len(n.keep) > 0 {
			ids := n.keep[0]
			n.keep = n.keep[1:]
			p := tr.Guard(func() {
				if err := n.db.UpdateRetainedCheckpoints(ids); err != nil {
					panic(err)
				}
			})
			if p != "" {
				h.ev("Broken", tr.M{"what": p})
			}
		}
	case 7:
		if h.chance(6) {
			runtime.GC()
		}
		settle()
	}
}

// synthetic writes a savepoint of a job without operators, to start from any checkpoint id.
func (h *hist) synthetic() *spt {
	b, err := proto.Marshal(&snapshotpb.JobCheckpoint{Id: h.base, SourceCheckpoints: []*snapshotpb.SourceCheckpoint{{CheckpointId: h.base, SourceId: "tbd"}}})
	if err != nil {
		panic(err)
	}
	uri, err := h.st.location().Write("savepoints/start/job.savepoint", bytes.NewReader(b))
	if err != nil {
		panic(err)
	}
	return &spt{h.base, uri}
}

var bases = []uint64{0, 0, 1, 2, 7, 14, 30, 60, 62, 63, 250, 254, 1<<12 - 3, 1<<16 - 2, 1<<32 - 2, 1<<53 - 2, 1<<62 + 5, 1<<63 - 3}

func newHist(r *rand.Rand, mode, kind string, base uint64) *hist {
	h := &hist{rng: r, mode: mode, st: newStore(kind), base: base, paths: map[string]uint64{}, failed: map[uint64]bool{}}
	h.r = all.Start(tr.M{"mode": mode, "kind": kind, "base": fmt.Sprint(base)})
	if !h.data() {
		h.shared = dkv.Open(dkv.DBOptions{FileSystem: h.st.fs("shared"), Logger: quiet}, nil)
		h.shared.Put([]byte("k"), []byte("v"))
	}
	return h
}

func (h *hist) first() bool {
	if h.base == 0 {
		return h.boot(nil)
	}
	return h.boot(h.synthetic())
}

func (h *hist) end() {
	h.ev("End", nil2)
	h.r.Done()
	h.l.kill()
	h.stopDBs()
	if h.st.dir != "" {
		os.RemoveAll(h.st.dir)
	}
}

func history(r *rand.Rand, mode string, i int) {
	kind := "s3"
	if i%3 == 0 && mode != "save" || i%8 == 0 {
		kind = "local"
	}
	h := newHist(r, mode, kind, pick(r, bases...))
	if mode == "ack" && kind == "s3" && r.Intn(2) == 0 {
		h.base = 0
	}
	defer h.end()
	if !h.first() {
		return
	}
	steps := map[string]int{"ack": 60, "pub": 70, "save": 150}[mode]
	if kind == "local" {
		steps = steps * 2 / 3
	}
	if mode == "save" && kind == "local" {
		steps = 60
	}
	for range steps {
		if !h.step() {
			return
		}
	}
	h.quiet()
	if mode == "save" && len(h.sps) > 0 {
		h.l.kill()
		h.ev("Die", nil2)
		h.stopDBs()
		sp := h.sps[r.Intn(len(h.sps))]
		h.mu.Lock()
		h.st.wipe(&sp)
		h.ev("Wipe", nil2)
		h.mu.Unlock()
		if h.boot(&sp) {
			h.quiet()
		}
	}
}

func (h *hist) restart() bool {
	h.crash()
	sp := (*spt)(nil)
	if h.base > 0 && h.published() == 0 {
		sp = h.synthetic() // still configured
		h.sps = nil        // their ids are handed out again, to the same places
	} else if len(h.sps) > 0 && h.chance(3) {
		x := h.sps[h.rng.Intn(len(h.sps))]
		sp = &x
		h.sps = []spt{x}
		h.mu.Lock()
		h.st.wipe(sp)
		if h.shared != nil {
			h.shared = dkv.Open(dkv.DBOptions{FileSystem: h.st.fs(h.name("shared")), Logger: quiet}, nil)
			h.shared.Put([]byte("k"), []byte("v"))
		}
		h.ev("Wipe", nil2)
		h.mu.Unlock()
		if !h.boot(sp) {
			return false
		}
		return true
	}
	return h.boot(sp)
}

// published: snapshots in storage, ever written.
func (h *hist) published() int {
	n := 0
	for uri, err := range h.st.location().List() {
		if err == nil && strings.HasSuffix(uri, ".snapshot") {
			n++
		}
	}
	return n
}

func (h *hist) step() bool {
	x := h.rng.Intn(100)
	switch h.mode {
	case "ack":
		switch {
		case x < 14:
			h.create()
		case x < 20:
			h.savepoint()
		case x < 60:
			if a := h.goodAck(); h.pend != 0 && a != nil {
				if h.chance(4) { // several at once
					as := []*ack{a}
					for range 1 + h.rng.Intn(3) {
						if h.chance(2) {
							if b := h.goodAck(); b != nil {
								as = append(as, b)
							}
						} else if b := h.badAck(); b != nil {
							as = append(as, b)
						}
					}
					h.send(as...)
				} else {
					h.send(a)
					if h.chance(6) {
						h.send(a) // the same message again
					}
				}
			}
		case x < 78:
			h.send(h.badAck())
		case x < 84:
			h.current(false)
		case x < 87:
			h.quiet()
		case x < 89:
			return h.restart()
		case x < 91:
			h.reassemble()
		case x < 96:
			h.l.release(h.rng.Intn(8), 0)
			settle()
		default:
			settle()
			h.receive()
		}
	case "pub":
		switch {
		case x < 22:
			if h.pend == 0 {
				if h.chance(5) {
					h.savepoint()
				} else {
					h.create()
				}
			}
			for range 1 + h.rng.Intn(8) {
				if a := h.goodAck(); h.pend != 0 && a != nil {
					h.send(a)
				}
			}
		case x < 62:
			h.l.release(h.rng.Intn(8), 0)
			settle()
		case x < 80:
			h.receive()
		case x < 84:
			h.current(false)
		case x < 88:
			h.quiet()
		case x < 90:
			h.l.fail.Store(1)
		case x < 94:
			return h.restart()
		default:
			settle()
		}
	case "save":
		switch {
		case x < 8:
			if h.pend == 0 {
				h.create()
			}
		case x < 14:
			h.savepoint()
		case x < 74:
			h.dataStep()
		case x < 88:
			h.l.release(h.rng.Intn(8), 0)
			settle()
		case x < 91:
			h.receive()
		case x < 93:
			h.quiet()
		case x < 95:
			return h.restart()
		case x < 98:
			h.reassemble()
			if h.chance(2) {
				h.savepoint()
			}
		default:
			h.current(false)
		}
	}
	return true
}

// reassemble: a member left; the job starts again with other members, in the same process.
func (h *hist) reassemble() {
	if h.data() {
		h.stopDBs()
	}
	if a, ok := any(h.s).(interface{ AbandonCheckpoint() }); ok {
		if p := h.do(a.AbandonCheckpoint); p != "" {
			h.ev("Broken", tr.M{"what": p})
			return
		}
		h.ev("Abandon", nil2)
		if h.pend != 0 {
			h.past = append(h.past, h.pend)
		}
		h.pend = 0
	} else if h.pend != 0 {
		return
	}
	var ck *snapshotpb.JobCheckpoint
	h.do(func() { ck = h.s.CurrentCheckpoint() })
	m := tr.M{"id": -1, "ops": [][]any{}, "splits": []string{}, "st": ""}
	if ck != nil {
		m = h.content(ck)
		m["id"] = h.id(ck.Id)
	}
	m["quiet"] = false
	h.ev("Current", m)
	h.mu.Lock()
	defer h.mu.Unlock()
	h.assemble(ck)
}

// reuse: a checkpoint is in progress when the job dies.
func reuse(r *rand.Rand) {
	h := newHist(r, "reuse", "s3", 0)
	defer h.end()
	h.boot(nil)
	h.create()
	for h.pend != 0 {
		h.send(h.goodAck())
	}
	h.quiet()
	h.create()
	h.crash()
	h.boot(nil)
	h.create()
}

// names: restart with several snapshots left behind, whatever their ids.
func names(r *rand.Rand, i int) {
	h := newHist(r, "names", pick(r, "s3", "s3", "local"), bases[i%len(bases)])
	defer h.end()
	if !h.first() {
		return
	}
	for range 6 + r.Intn(8) {
		h.l.gate.Store(false)
		for range r.Intn(5) {
			h.create()
			for h.pend != 0 {
				h.send(h.goodAck())
			}
			h.quiet()
		}
		// the next one is published but what it makes obsolete stays
		h.l.gate.Store(true)
		h.create()
		for h.pend != 0 {
			h.send(h.goodAck())
		}
		w := h.written
		cl.Wait(2*time.Second, func() bool {
			h.mu.Lock()
			defer h.mu.Unlock()
			if h.written == w {
				h.l.releaseWrite()
			}
			return h.written > w
		})
		settle()
		h.crash()
		if !h.boot(nil) {
			return
		}
	}
}

func (l *loc) releaseWrite() {
	l.mu.Lock()
	defer l.mu.Unlock()
	for i, o := range l.waiting {
		if o.what == "write" {
			l.waiting = slices.Delete(l.waiting, i, i+1)
			o.go_ <- 0
			return
		}
	}
}
