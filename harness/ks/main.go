// Driver for C02, C03 and C06: real operators with small databases, fed by simulated source runners; their handler
// records the state it is given and what it returns.
package main

import (
	"encoding/hex"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/partitioning"
	"reduction.dev/reduction/proto"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/workers/operator"
	"reduction.dev/reduction/zzverif/cl"
	"reduction.dev/reduction/zzverif/simfs"
	"reduction.dev/reduction/zzverif/tr"
)

var all *tr.T

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

const unit = int64(time.Second)

// rng is a random source shared by goroutines.
type rng struct {
	mu sync.Mutex
	r  *rand.Rand
}

func (g *rng) n(n int) int {
	g.mu.Lock()
	defer g.mu.Unlock()
	return g.r.Intn(n)
}

type world struct {
	t      *tr.R
	r      *rng
	groups int
	space  *partitioning.KeySpace // any number of ranges
	keys   [][]byte
	ns     []string
	eks    [][]byte
	vals   int
	top    int
	nextEv int
	dir    string
	srs    []string
	job    *cl.Job
	gen    int
	ops    []*member
	wms    map[string]int
	batch  batching.EventBatcherParams
	slow   int
	cks    map[int][]*snapshotpb.OperatorCheckpoint // complete ones, in the order of the acknowledgements
	nck    int
	errs   atomic.Int64
	fail   atomic.Int64 // fail the handler call after so many
	timers bool
}

type member struct {
	w    *world
	n    int
	id   string
	op   *cl.Op
	dead atomic.Bool
}

var errDead = errors.New("killed")

func keySet(r *rand.Rand, n int) [][]byte {
	base := [][]byte{{}, {0}, {0, 0}, {0xff}, []byte("a"), []byte("ab"), []byte("abc"), []byte("b"), {0, 0, 0, 1}, {0xff, 0xff}, {'a', 0}}
	r.Shuffle(len(base), func(i, j int) { base[i], base[j] = base[j], base[i] })
	ks := base[:min(n, len(base))]
	for len(ks) < n {
		k := make([]byte, 1+r.Intn(20))
		r.Read(k)
		dup := false
		for _, x := range ks {
			dup = dup || string(x) == string(k)
		}
		if !dup {
			ks = append(ks, k)
		}
	}
	return ks
}

func (w *world) keyNo(k []byte) int {
	for i, x := range w.keys {
		if string(x) == string(k) {
			return i + 1
		}
	}
	return 0
}

func h(b []byte) string { return "x" + hex.EncodeToString(b) }

func (w *world) val() []byte {
	w.vals++
	b := []byte(fmt.Sprint("v", w.vals))
	if w.r.r.Intn(8) == 0 {
		b = []byte{}
	} else if w.r.r.Intn(8) == 0 {
		b = append(b, []byte(strings.Repeat("z", w.r.r.Intn(200)))...)
	}
	return b
}

// muts and timers make what the handler returns; the caller holds w.r.mu
func (w *world) muts() []cl.Mut {
	r := w.r.r
	out := []cl.Mut{}
	for range pick(r, 0, 1, 1, 2, 3, 6) {
		m := cl.Mut{NS: w.ns[r.Intn(len(w.ns))], K: w.eks[r.Intn(len(w.eks))]}
		if r.Intn(3) == 0 {
			m.Del = true
		} else {
			m.V = w.val()
		}
		out = append(out, m)
	}
	return out
}

func (w *world) times() []int64 {
	out := []int64{}
	if w.timers {
		for range pick(w.r.r, 0, 0, 1, 2) {
			out = append(out, int64(w.r.r.Intn(w.top+6))*unit)
		}
	}
	return out
}

func mutsOf(ms []cl.Mut) []any {
	out := []any{}
	for _, m := range ms {
		out = append(out, []any{h([]byte(m.NS)), h(m.K), h(m.V), m.Del})
	}
	return out
}

func ticks(ts []int64) []int64 {
	out := []int64{}
	for _, x := range ts {
		out = append(out, x/unit)
	}
	return out
}

// handler records calls when they return: nothing else happens in this operator in between
func (m *member) handler() *cl.Handler {
	w := m.w
	hd := &cl.Handler{OnTimer: func(key []byte, ts int64) ([]cl.Mut, []int64) {
		w.r.mu.Lock()
		defer w.r.mu.Unlock()
		return w.muts(), w.times()
	}}
	hd.Respond = func(req *handlerpb.ProcessEventBatchRequest) ([]cl.KeyResp, error) {
		if w.slow > 0 {
			time.Sleep(time.Duration(w.r.n(w.slow)) * time.Microsecond)
		}
		if m.dead.Load() {
			return nil, errDead
		}
		if w.fail.Load() > 0 && w.fail.Add(-1) == 0 {
			w.r.mu.Lock()
			defer w.r.mu.Unlock()
			if !m.dead.Load() {
				w.t.Ev("Break", tr.M{"op": m.n})
			}
			return nil, errors.New("handler failed")
		}
		rs := hd.Script(req)
		evs, states, resp := []any{}, []any{}, []any{}
		for _, e := range req.Events {
			if k := e.GetKeyedEvent(); k != nil {
				evs = append(evs, tr.M{"key": w.keyNo(k.Key), "id": cl.EvOf(k).ID, "t": 0})
			} else if x := e.GetTimerExpired(); x != nil {
				evs = append(evs, tr.M{"key": w.keyNo(x.Key), "id": 0, "t": x.Timestamp.AsTime().UnixNano() / unit})
			}
		}
		for _, ks := range req.KeyStates {
			nss := []any{}
			for _, n := range ks.StateEntryNamespaces {
				es := []any{}
				for _, e := range n.Entries {
					es = append(es, []any{h(e.Key), h(e.Value)})
				}
				nss = append(nss, []any{h([]byte(n.Namespace)), es})
			}
			states = append(states, []any{w.keyNo(ks.Key), nss})
		}
		for _, x := range rs {
			resp = append(resp, []any{w.keyNo(x.Key), mutsOf(x.Muts), ticks(x.Timers)})
		}
		w.r.mu.Lock()
		defer w.r.mu.Unlock()
		if m.dead.Load() {
			return nil, errDead
		}
		w.t.Ev("Req", tr.M{"op": m.n, "evs": evs, "states": states, "resp": resp, "wm": req.Watermark.AsTime().UnixNano() / unit})
		return rs, nil
	}
	return hd
}

var optMu sync.Mutex
var optRand = tr.Rand(77)

var stores sync.Map // scratch directory -> *simfs.World: most worlds keep their databases in memory

func tune() {
	dkv.TuneOptions = func(o *dkv.DBOptions) {
		optMu.Lock()
		defer optMu.Unlock()
		if l, ok := o.FileSystem.(*storage.LocalFilesystem); ok {
			if w, ok := stores.Load(filepath.Dir(l.Dir)); ok {
				o.FileSystem = w.(*simfs.World).FS(l.Dir)
			} else { // every file costs a process
				o.MemTableSize, o.TargetFileSize, o.MaxWALSize = 1000, 1000, 1000
				return
			}
		}
		o.MemTableSize, o.TargetFileSize = pick[uint64](optRand, 1, 60, 200, 800, 1<<20), pick[uint64](optRand, 1, 100, 1000, 1<<20)
		o.MaxWALSize, o.L0TableNumCompactionTrigger = pick[uint64](optRand, 100, 1000, 1<<20), pick(optRand, 1, 2, 4)
	}
	operator.TuneTimerCache = func(uint64) uint64 {
		optMu.Lock()
		defer optMu.Unlock()
		return pick[uint64](optRand, 0, 30, 100, 400, 1<<30)
	}
}

func groupsOf(mode string) []int {
	if mode == "rescale" {
		return []int{3, 4, 8, 16, 256}
	}
	return []int{1, 2, 3, 8, 16, 256}
}

func newWorld(t func(tr.M) *tr.R, r *rand.Rand, mode string) *world {
	w := &world{r: &rng{r: r}, groups: pick(r, groupsOf(mode)...), top: pick(r, 6, 20), dir: cl.Scratch(), job: &cl.Job{},
		cks: map[int][]*snapshotpb.OperatorCheckpoint{}, wms: map[string]int{}, slow: pick(r, 0, 0, 300, 3000), timers: r.Intn(4) > 0}
	if r.Intn(12) > 0 {
		stores.Store(w.dir, simfs.NewWorld())
	}
	w.keys = keySet(r, pick(r, 1, 3, 6, 11, 16))
	w.space = partitioning.NewKeySpace(w.groups, 1)
	long := strings.Repeat("n", 255)
	w.ns = [][]string{{""}, {"", "a"}, {"a", "ab", "b"}, {"a", "a\x00", "\x01"}, {long, long + "n", "n"}, {strings.Repeat("m", 256), "", strings.Repeat("m", 700)}}[r.Intn(6)]
	w.eks = [][][]byte{{{}}, {{}, {0}, {'a'}}, {[]byte("a"), []byte("ab"), {0xff}}, {{1}, {2}, {3}, {4}, {5}, {6}, {7}, {8}}}[r.Intn(4)]
	w.batch = batching.EventBatcherParams{MaxSize: pick(r, 0, 1, 2, 3, 8, 50), MaxDelay: pick(r, 0, time.Millisecond, 4*time.Millisecond)}
	for j := range pick(r, 1, 2, 3) {
		w.srs = append(w.srs, fmt.Sprintf("s%d", j+1))
	}
	kg := []int{}
	for _, k := range w.keys {
		kg = append(kg, int(w.space.KeyGroup(k)))
	}
	w.t = t(tr.M{"mode": mode, "kg": kg, "groups": w.groups, "srs": len(w.srs), "batch": fmt.Sprint(w.batch.MaxSize, w.batch.MaxDelay), "ns": len(w.ns)})
	w.job.OnOp = func(ck *snapshotpb.OperatorCheckpoint) error {
		w.r.mu.Lock()
		var from *member
		for _, m := range w.ops {
			if m.id == ck.OperatorId {
				from = m
			}
		}
		defer w.r.mu.Unlock()
		if from == nil || from.dead.Load() {
			return errDead
		}
		w.t.Ev("Ack", tr.M{"op": from.n, "ck": ck.CheckpointId})
		return nil
	}
	return w
}

func (w *world) factory(sender string, n *jobpb.NodeIdentity) proto.Operator {
	w.r.mu.Lock()
	defer w.r.mu.Unlock()
	for _, m := range w.ops {
		if m.id == n.Id {
			return &cl.Peer{Op: m.op, From: sender}
		}
	}
	return &cl.FakeOp{Needs: true}
}

// deploy starts n new operators from checkpoint ck (0: none), as the job's assembly does.
func (w *world) deploy(n, ck int) bool {
	w.gen++
	ranges := partitioning.NewKeySpace(w.groups, n).KeyGroupRanges()
	cks := w.cks[ck]
	var from []partitioning.KeyGroupRange
	for _, c := range cks {
		from = append(from, partitioning.KeyGroupRangeFromProto(c.KeyGroupRange))
	}
	assigned := partitioning.AssignRanges(ranges, from)
	var ops []*member
	ids := []string{}
	rs := []any{}
	for i := range n {
		m := &member{w: w, n: i + 1, id: fmt.Sprintf("g%do%d", w.gen, i)}
		m.op = cl.NewOp(m.id, w.job, m.handler(), w.batch, w.factory)
		ops = append(ops, m)
		ids = append(ids, m.id)
		rs = append(rs, []int{ranges[i].Start, ranges[i].End})
	}
	w.r.mu.Lock()
	w.ops = ops
	w.r.mu.Unlock()
	for _, s := range w.srs {
		w.wms[s] = 0
	}
	w.t.Ev("Deploy", tr.M{"ranges": rs, "ck": ck})
	var wg sync.WaitGroup
	var mu sync.Mutex
	res := ""
	for i, m := range ops {
		wg.Add(1)
		go func() {
			defer wg.Done()
			mine := []*snapshotpb.OperatorCheckpoint{}
			for _, j := range assigned[i] {
				mine = append(mine, cks[j])
			}
			p := tr.Guard(func() {
				if err := m.op.Deploy(ids, w.srs, w.groups, w.dir, mine); err != nil {
					panic(err)
				}
			})
			if p != "" {
				mu.Lock()
				res = p
				mu.Unlock()
			}
		}()
	}
	wg.Wait()
	w.t.Ev("Deployed", tr.M{"panic": res})
	return res == ""
}

func (w *world) kill() {
	w.r.mu.Lock()
	for _, m := range w.ops {
		m.dead.Store(true)
	}
	w.r.mu.Unlock()
	for _, m := range w.ops {
		m.op.Halt()
	}
	for _, m := range w.ops {
		m.op.Kill()
	}
}

// lastCk is the newest checkpoint all operators took (0: none)
func (w *world) lastCk() int {
	last := 0
	for c, acks := range w.cks {
		if len(acks) > 0 {
			last = max(last, c)
		}
	}
	return last
}

func (w *world) owner(key []byte) *member {
	return w.ops[partitioning.NewKeySpace(w.groups, len(w.ops)).RangeIndex(key)]
}

// item is one event of a stream from a source runner to an operator.
type item struct {
	ev  *workerpb.Event
	id  int
	wm  int
	bar int
}

func (w *world) event(key []byte) (*workerpb.Event, int) {
	w.nextEv++
	e := cl.Ev{ID: w.nextEv, Key: key, TS: 1, Muts: w.muts(), Timers: w.times()}
	return cl.KeyedEvent(e), e.ID
}

// streams makes the next events of every source runner, with the barrier of checkpoint ck (0: none) in the middle.
func (w *world) streams(n, ck int) map[[2]int][]item {
	r := w.r.r
	out := map[[2]int][]item{}
	pre, post := []any{}, []any{}
	preWM := [][]int{}
	for si, s := range w.srs {
		before := [][]int{}
		after := [][]int{}
		total := r.Intn(2*n + 1)
		at := r.Intn(total + 1)
		marks := []int{}
		for k := range total + 1 {
			if k == at && ck > 0 {
				for o := range w.ops {
					out[[2]int{si, o}] = append(out[[2]int{si, o}], item{ev: cl.BarrierEvent(uint64(ck)), bar: ck})
				}
				marks = append(marks, w.wms[s])
			}
			if k == total {
				break
			}
			if r.Intn(6) == 0 {
				w.wms[s] += r.Intn(max(2, w.top/3))
				for o := range w.ops {
					out[[2]int{si, o}] = append(out[[2]int{si, o}], item{ev: cl.WatermarkEvent(int64(w.wms[s]) * unit), wm: w.wms[s]})
				}
				continue
			}
			key := w.keys[r.Intn(len(w.keys))]
			ev, id := w.event(key)
			o := w.owner(key).n - 1
			out[[2]int{si, o}] = append(out[[2]int{si, o}], item{ev: ev, id: id})
			if k < at || ck == 0 {
				before = append(before, []int{id, w.keyNo(key)})
			} else {
				after = append(after, []int{id, w.keyNo(key)})
			}
		}
		pre, post = append(pre, before), append(post, after)
		if len(marks) == 0 {
			marks = []int{w.wms[s]}
		}
		preWM = append(preWM, marks)
	}
	lim, lim2 := 1<<30, 1<<30
	for i, m := range preWM {
		lim, lim2 = min(lim, m[0]), min(lim2, w.wms[w.srs[i]])
	}
	w.t.Ev("Send", tr.M{"ck": ck, "before": pre, "after": post, "wm": lim, "wm2": lim2})
	return out
}

// run delivers the streams, each by its own goroutine; false when not everything was taken in time
func (w *world) run(ss map[[2]int][]item, par bool) bool {
	var wg sync.WaitGroup
	bad := atomic.Int64{}
	failed := make(chan struct{})
	ops := w.ops
	send := func(k [2]int, items []item) {
		m := ops[k[1]]
		for _, it := range items {
			if par && w.r.n(3) == 0 {
				time.Sleep(time.Duration(w.r.n(400)) * time.Microsecond)
			}
			if err := m.op.Send(w.srs[k[0]], it.ev); err != nil {
				if bad.Add(1) == 1 {
					close(failed)
				}
				return
			}
		}
	}
	if par {
		for k, items := range ss {
			wg.Add(1)
			go func() { defer wg.Done(); send(k, items) }()
		}
		done := make(chan struct{})
		go func() { wg.Wait(); close(done) }()
		stopped := make(chan struct{})
		var once sync.Once
		for _, m := range w.ops { // an operator may stop by itself
			go func() {
				select {
				case <-m.op.Done:
					once.Do(func() { close(stopped) })
				case <-done:
				}
			}()
		}
		select {
		case <-done:
		case <-stopped:
			bad.Add(1)
		case <-failed: // the job stops everything
			if w.r.n(2) == 0 { // not at once
				time.Sleep(time.Duration(w.r.n(3000)) * time.Microsecond)
			}
		case <-time.After(60 * time.Second):
			if os.Getenv("STACKS") != "" {
				b := make([]byte, 1<<22)
				os.Stderr.Write(b[:runtime.Stack(b, true)])
				os.Exit(3)
			}
			w.t.Ev("Hang", nil)
			return false
		}
	} else { // one event at a time; streams that are blocked at their barrier wait
		w.interleave(ss, send)
	}
	return bad.Load() == 0
}

func (w *world) interleave(ss map[[2]int][]item, send func(k [2]int, items []item)) {
	blocked := map[[2]int]bool{}
	for {
		var open [][2]int
		left := 0
		for si := range w.srs {
			for o := range w.ops {
				k := [2]int{si, o}
				if len(ss[k]) > 0 {
					left++
					if !blocked[k] {
						open = append(open, k)
					}
				}
			}
		}
		if left == 0 {
			return
		}
		if len(open) == 0 { // everyone passed the barrier
			blocked = map[[2]int]bool{}
			continue
		}
		k := open[w.r.n(len(open))]
		it := ss[k][0]
		ss[k] = ss[k][1:]
		send(k, []item{it})
		if it.bar > 0 {
			blocked[k] = true
			all := true
			for si := range w.srs {
				all = all && blocked[[2]int{si, k[1]}]
			}
			if all {
				for si := range w.srs {
					delete(blocked, [2]int{si, k[1]})
				}
			}
		}
	}
}

// phase delivers events, with a checkpoint when asked for; it returns false when it failed
func (w *world) phase(n int, ck bool, par bool) bool {
	id := 0
	if ck {
		w.nck++
		id = w.nck
	}
	w.r.mu.Lock()
	ss := w.streams(n, id)
	w.r.mu.Unlock()
	if !w.run(ss, par) {
		return false
	}
	if ck {
		var got []*snapshotpb.OperatorCheckpoint
		for _, m := range w.ops {
			if c := w.job.OpCk(m.id, uint64(id)); c != nil {
				got = append(got, c)
			}
		}
		w.r.mu.Lock()
		w.r.r.Shuffle(len(got), func(a, b int) { got[a], got[b] = got[b], got[a] })
		w.r.mu.Unlock()
		if len(got) != len(w.ops) {
			return false
		}
		w.cks[id] = got
		w.t.Ev("Complete", tr.M{"ck": id})
		if w.r.n(2) == 0 {
			for _, m := range w.ops {
				p := tr.Guard(func() {
					if err := m.op.HandleRemoveCheckpoints(nil, &workerpb.UpdateRetainedCheckpointsRequest{CheckpointIds: []uint64{uint64(id)}}); err != nil {
						panic(err)
					}
				})
				if p != "" {
					w.t.Ev("Err", tr.M{"what": p})
				}
			}
		}
	}
	return true
}

// probe shows the state of every key
func (w *world) probe() {
	w.r.mu.Lock()
	type pe struct {
		m  *member
		ev *workerpb.Event
	}
	var ps []pe
	ids := [][]int{}
	for _, i := range w.r.r.Perm(len(w.keys)) {
		w.nextEv++
		e := cl.Ev{ID: w.nextEv, Key: w.keys[i], TS: 1}
		ids = append(ids, []int{e.ID, i + 1})
		ps = append(ps, pe{w.owner(w.keys[i]), cl.KeyedEvent(e)})
	}
	lim := 1 << 30
	for _, s := range w.srs {
		lim = min(lim, w.wms[s])
	}
	w.t.Ev("Send", tr.M{"ck": 0, "before": []any{ids}, "after": []any{}, "wm": lim, "wm2": lim})
	w.r.mu.Unlock()
	for _, p := range ps {
		if err := p.m.op.Send(w.srs[0], p.ev); err != nil {
			w.t.Ev("Err", tr.M{"what": err.Error()})
		}
	}
}

// finish fires all timers, shows all state and takes a last checkpoint, which flushes what is pending
func (w *world) finish() {
	w.probe()
	lim := 1000
	w.t.Ev("Send", tr.M{"ck": 0, "before": []any{}, "after": []any{}, "wm": lim, "wm2": lim})
	for _, s := range w.srs {
		w.wms[s] = lim
		for _, m := range w.ops {
			if err := m.op.Send(s, cl.WatermarkEvent(int64(lim)*unit)); err != nil {
				w.t.Ev("Err", tr.M{"what": err.Error()})
			}
		}
	}
	w.phase(0, true, false)
	w.t.Ev("Quiet", nil)
	w.kill()
	stores.Delete(w.dir)
	w.t.Done()
}

// state: one deployment after another from the latest checkpoint, the same number of operators (C03)
func state(i int) {
	r := tr.Rand(int64(1000000 + i))
	w := newWorld(all.Start, r, "state")
	n := pick(r, 1, 1, 2, 3)
	par := r.Intn(2) == 0
	if !w.deploy(n, 0) {
		w.t.Done()
		return
	}
	for range pick(r, 2, 4, 8) {
		if !w.phase(pick(r, 3, 10, 30), r.Intn(2) == 0, par) {
			w.t.Ev("Err", tr.M{"what": "phase"})
			break
		}
		if w.nck > 0 && r.Intn(4) == 0 {
			w.kill()
			if !w.deploy(n, w.nck) {
				w.t.Done()
				return
			}
		}
	}
	w.finish()
}

// rescale: every deployment has another number of operators (C06)
func rescale(i int) {
	r := tr.Rand(int64(2000000 + i))
	w := newWorld(all.Start, r, "rescale")
	par := r.Intn(3) == 0
	if !w.deploy(1+r.Intn(4), 0) {
		w.t.Done()
		return
	}
	for range 1 + r.Intn(4) {
		ok := true
		for range 1 + r.Intn(3) {
			if ok = w.phase(pick(r, 3, 10, 25), r.Intn(3) > 0, par); !ok {
				break
			}
		}
		if ok && (w.nck == 0 || r.Intn(2) == 0) {
			ok = w.phase(pick(r, 0, 5, 10), true, par)
		}
		if !ok {
			w.t.Ev("Err", tr.M{"what": "phase"})
			break
		}
		w.kill()
		if !w.deploy(1+r.Intn(5), w.nck) {
			w.t.Done()
			return
		}
		if r.Intn(2) == 0 {
			w.probe()
		}
	}
	w.finish()
}

// cut: checkpoint after checkpoint with concurrent streams (C02)
func cut(i int) {
	r := tr.Rand(int64(3000000 + i))
	w := newWorld(all.Start, r, "cut")
	for len(w.srs) < 2+i%3 {
		w.srs = append(w.srs, fmt.Sprintf("s%d", len(w.srs)+1))
	}
	if w.slow == 0 {
		w.slow = 200
	}
	if !w.deploy(pick(r, 1, 1, 2), 0) {
		w.t.Done()
		return
	}
	for range pick(r, 1, 3, 5) {
		failing := r.Intn(5) == 0
		if failing {
			w.fail.Store(1 + int64(r.Intn(12)))
		}
		ok := w.phase(pick(r, 3, 8, 15), r.Intn(5) > 0, true)
		if !ok && !failing {
			w.t.Ev("Err", tr.M{"what": "phase"})
			break
		}
		w.fail.Store(0)
		if !ok {
			w.t.Ev("Failed", nil)
			w.kill()
			if !w.deploy(len(w.ops), w.lastCk()) {
				w.t.Done()
				return
			}
			w.probe()
			continue
		}
		if w.nck > 0 && r.Intn(3) == 0 {
			w.kill()
			if !w.deploy(len(w.ops), w.lastCk()) {
				w.t.Done()
				return
			}
			w.probe()
		}
	}
	w.finish()
}

func main() {
	cl.Quiet()
	all = tr.New()
	tune()
	switch os.Args[1] {
	case "state":
		tr.Parallel(tr.Pick(220, 3000), 24, state)
	case "rescale":
		tr.Parallel(tr.Pick(220, 3000), 24, rescale)
	case "cut":
		tr.Parallel(tr.Pick(220, 3000), 24, cut)
	}
	fmt.Printf("%d traces, %d events\n", all.Traces, all.Events)
}
