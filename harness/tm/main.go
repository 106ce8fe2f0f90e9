// Driver for C10 and C11: timer registries and operators under timers, watermarks, checkpoints and restores.
package main

import (
	"fmt"
	"math"
	"math/rand"
	"os"
	"sync"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/partitioning"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/workers/operator"
	"reduction.dev/reduction/workers/wmark"
	"reduction.dev/reduction/zzverif/cl"
	"reduction.dev/reduction/zzverif/tr"
)

var t *tr.T

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

// scale turns the small times of the specification into nanoseconds.
type scale int64

func (s scale) time(v int) time.Time { return time.Unix(0, int64(v)*int64(s)) }
func (s scale) back(x time.Time) int {
	n := x.UnixNano()
	if !x.Equal(time.Unix(0, n)) || n%int64(s) != 0 || n/int64(s) > 1<<30 || n/int64(s) < -1<<30 {
		return -999
	}
	return int(n / int64(s))
}

var scales = []scale{1, 7, 1000, 1_000_000, 1_000_000_000, 1<<32 + 1, 86_400_000_000_000, 1_000_000_000_000_003}

func genKeys(r *rand.Rand, n int) [][]byte {
	alpha := []byte{0, 1, 'a', 0x7f, 0x80, 0xff}
	seen := map[string]bool{}
	var ks [][]byte
	for i := 0; len(ks) < n && i < 50*n; i++ {
		k := []byte{}
		for range r.Intn(4) {
			k = append(k, alpha[r.Intn(len(alpha))])
		}
		if len(ks) > 0 && r.Intn(3) == 0 {
			k = append(append([]byte{}, ks[r.Intn(len(ks))]...), alpha[r.Intn(len(alpha))])
		}
		if r.Intn(12) == 0 {
			k = append(k, make([]byte, 40)...)
		}
		if !seen[string(k)] {
			seen[string(k)] = true
			ks = append(ks, k)
		}
	}
	return ks
}

func smallOpts(r *rand.Rand, fs storage.FileSystem) dkv.DBOptions {
	return dkv.DBOptions{FileSystem: fs, MemTableSize: pick[uint64](r, 1, 40, 150, 600, 1<<20), TargetFileSize: pick[uint64](r, 1, 100, 1000, 1<<20),
		MaxWALSize: pick[uint64](r, 60, 1000, 1<<20), L0TableNumCompactionTrigger: pick(r, 1, 2, 4)}
}

func cacheSize(r *rand.Rand, groups int) uint64 {
	per := pick(r, 0, 1, 12, 24, 25, 30, 36, 48, 60, 100, 200)
	switch r.Intn(8) {
	case 0:
		return 1 << 30
	case 1:
		return uint64(r.Intn(60))
	}
	return uint64(per * groups)
}

// ---- the registry ---------------------------------------------------------------------------

type regWorld struct {
	r      *rand.Rand
	sc     scale
	fs     *storage.MemoryFilesystem
	dir    int
	groups int
	nops   int
	srs    []string
	keys   [][]byte
	db     *dkv.DB
	reg    *operator.TimerRegistry
	wm     map[string]int
	top    int
}

func (w *regWorld) deploy(hs []recovery.CheckpointHandle, cks []int) {
	ks := partitioning.NewKeySpace(w.groups, w.nops)
	rng := ks.KeyGroupRanges()[w.r.Intn(w.nops)]
	own := []any{}
	var rest [][]byte
	for _, k := range w.keys {
		if rng.IncludesKeyGroup(ks.KeyGroup(k)) {
			own = append(own, tr.Bytes(k))
			rest = append(rest, k)
		}
	}
	p := tr.Guard(func() {
		w.dir++
		o := smallOpts(w.r, w.fs.WithWorkingDir(fmt.Sprintf("/d%d", w.dir)))
		w.db = dkv.Open(o, hs)
		w.reg = operator.NewTimerRegistry(operator.NewTimerStore(w.db, ks, rng, cacheSize(w.r, rng.Size())), w.srs)
	})
	w.wm = map[string]int{}
	for _, s := range w.srs {
		w.wm[s] = 0
	}
	t.Ev("Deploy", tr.M{"srs": w.srs, "cks": cks, "keys": own, "panic": p})
	w.keys = rest
}

func (w *regWorld) eff() int {
	m := math.MaxInt
	for _, v := range w.wm {
		m = min(m, v)
	}
	return m
}

func (w *regWorld) set() {
	if len(w.keys) == 0 {
		return
	}
	k := w.keys[w.r.Intn(len(w.keys))]
	v := w.eff() + w.r.Intn(w.top) - w.r.Intn(3)
	if v < 1 {
		v = 1
	}
	p := tr.Guard(func() { w.reg.SetTimer(k, w.sc.time(v)) })
	t.Ev("Set", tr.M{"k": tr.Bytes(k), "t": v, "panic": p})
}

func (w *regWorld) report(inner bool) {
	s := w.srs[w.r.Intn(len(w.srs))]
	if w.r.Intn(3) > 0 { // the one holding time back
		for _, x := range w.srs {
			if w.wm[x] < w.wm[s] {
				s = x
			}
		}
	}
	w.wm[s] += w.r.Intn(max(1, w.top/2))
	t.Ev("Report", tr.M{"sr": s, "t": w.wm[s]})
	p := tr.Guard(func() {
		for k, at := range w.reg.AdvanceWatermark(s, &workerpb.Watermark{Timestamp: timestamppb.New(w.sc.time(w.wm[s]))}) {
			t.Ev("Fire", tr.M{"k": tr.Bytes(k), "t": w.sc.back(at)})
			if inner && w.r.Intn(3) == 0 {
				w.set()
			}
		}
	})
	t.Ev("Quiet", tr.M{"panic": p})
}

func registry() {
	for i := range tr.Pick(260, 4000) {
		r := tr.Rand(int64(100000 + i))
		w := &regWorld{r: r, sc: scales[r.Intn(len(scales))], fs: storage.NewMemoryFilesystem(), groups: pick(r, 1, 1, 2, 3, 8, 300), nops: 1,
			keys: genKeys(r, pick(r, 1, 3, 6, 10)), top: pick(r, 4, 12, 40)}
		if w.groups > 1 && r.Intn(4) == 0 {
			w.nops = 2
		}
		for j := range pick(r, 1, 1, 2, 3) {
			w.srs = append(w.srs, fmt.Sprintf("s%d", j))
		}
		t.Begin(tr.M{"mode": "reg", "groups": w.groups, "nops": w.nops, "nkeys": len(w.keys), "scale": fmt.Sprint(w.sc)})
		w.deploy(nil, []int{})
		nck := 0
		var h *recovery.CheckpointHandle
		setP := pick(r, 3, 6, 8)
		for range pick(r, 40, 90, 160) {
			switch x := r.Intn(12); {
			case x < setP:
				w.set()
			case x < 10:
				w.report(r.Intn(2) == 0)
			case x == 10:
				nck++
				p := tr.Guard(func() {
					hh, err := w.db.Checkpoint(uint64(nck))()
					if err != nil {
						panic(err)
					}
					h = &hh
				})
				t.Ev("Ckpt", tr.M{"ck": nck, "panic": p})
			case x == 11 && h != nil && r.Intn(3) == 0:
				old := w.db
				if w.nops == 2 { // it holds only its own range: keep to it
					w.nops = 1
				}
				w.deploy([]recovery.CheckpointHandle{*h}, []int{int(h.CheckpointID)})
				old.WaitOnTasks()
			}
		}
		for _, s := range w.srs {
			w.wm[s] += 200
			t.Ev("Report", tr.M{"sr": s, "t": w.wm[s]})
			p := tr.Guard(func() {
				for k, at := range w.reg.AdvanceWatermark(s, &workerpb.Watermark{Timestamp: timestamppb.New(w.sc.time(w.wm[s]))}) {
					t.Ev("Fire", tr.M{"k": tr.Bytes(k), "t": w.sc.back(at)})
				}
			})
			t.Ev("Quiet", tr.M{"panic": p})
		}
		w.db.WaitOnTasks()
	}
}

// ---- operators ------------------------------------------------------------------------------

type opWorld struct {
	r     *rand.Rand
	sc    scale
	srs   []string
	keys  [][]byte
	op    *cl.Op
	job   *cl.Job
	n     int
	mu    sync.Mutex
	wm    map[string]int
	eff   int
	top   int
	dir   string
	total int
}

func (w *opWorld) timers() []int64 {
	var ts []int64
	for range w.r.Intn(4) {
		v := w.eff + w.r.Intn(w.top) - w.r.Intn(3)
		if v < 1 {
			v = 1
		}
		ts = append(ts, int64(v)*int64(w.sc))
		if w.r.Intn(3) == 0 {
			ts = append(ts, ts[0])
		}
	}
	return ts
}

func (w *opWorld) handler() *cl.Handler {
	h := &cl.Handler{}
	h.OnReq = func(req *handlerpb.ProcessEventBatchRequest) {
		ts := [][]any{}
		for _, ev := range req.Events {
			if x, ok := ev.Event.(*handlerpb.Event_TimerExpired); ok {
				ts = append(ts, []any{tr.Bytes(x.TimerExpired.Key), w.sc.back(x.TimerExpired.Timestamp.AsTime())})
			}
		}
		t.Ev("Req", tr.M{"wm": w.sc.back(req.Watermark.AsTime()), "timers": ts})
	}
	h.OnResp = func(req *handlerpb.ProcessEventBatchRequest, rs []cl.KeyResp) {
		ts := [][]any{}
		for _, r := range rs {
			for _, x := range r.Timers {
				ts = append(ts, []any{tr.Bytes(r.Key), w.sc.back(time.Unix(0, x))})
			}
		}
		t.Ev("Resp", tr.M{"timers": ts})
	}
	h.OnTimer = func(key []byte, ts int64) ([]cl.Mut, []int64) {
		w.mu.Lock()
		defer w.mu.Unlock()
		if w.r.Intn(3) == 0 && w.total < 120 {
			w.total++
			return nil, w.timers()
		}
		return nil, nil
	}
	return h
}

func (w *opWorld) deploy(groups int, cks []*snapshotpb.OperatorCheckpoint, ids []int, batch batching.EventBatcherParams) {
	w.n++
	var p string
	r := w.r
	cache := cacheSize(r, groups)
	operator.TuneTimerCache = func(uint64) uint64 { return cache }
	mem := smallOpts(r, nil)
	dkv.TuneOptions = func(o *dkv.DBOptions) {
		o.MemTableSize, o.TargetFileSize, o.MaxWALSize, o.L0TableNumCompactionTrigger = mem.MemTableSize, mem.TargetFileSize, mem.MaxWALSize, mem.L0TableNumCompactionTrigger
	}
	id := fmt.Sprintf("op%d", w.n)
	w.op = cl.NewOp(id, w.job, w.handler(), batch, nil)
	p = tr.Guard(func() {
		if err := w.op.Deploy([]string{id}, w.srs, groups, w.dir, cks); err != nil {
			panic(err)
		}
	})
	own := []any{}
	for _, k := range w.keys {
		own = append(own, tr.Bytes(k))
	}
	w.wm = map[string]int{}
	w.eff = 0
	for _, s := range w.srs {
		w.wm[s] = 0
	}
	t.Ev("Deploy", tr.M{"srs": w.srs, "cks": ids, "keys": own, "panic": p})
}

func (w *opWorld) setEff() {
	w.eff = math.MaxInt
	for _, v := range w.wm {
		w.eff = min(w.eff, v)
	}
}

func newOpWorld(r *rand.Rand, mode string, groups int) *opWorld {
	w := &opWorld{r: r, sc: scales[r.Intn(len(scales))], keys: genKeys(r, pick(r, 1, 3, 6)), top: pick(r, 4, 12, 40), job: &cl.Job{}, dir: cl.Scratch()}
	for j := range pick(r, 1, 2, 3) {
		w.srs = append(w.srs, fmt.Sprintf("s%d", j))
	}
	t.Begin(tr.M{"mode": mode, "groups": groups, "nkeys": len(w.keys), "srs": len(w.srs), "scale": fmt.Sprint(w.sc)})
	return w
}

func (w *opWorld) event() *workerpb.Event {
	return cl.KeyedEvent(cl.Ev{Key: w.keys[w.r.Intn(len(w.keys))], TS: 1, Timers: w.timers()})
}

// barriers flushes and checkpoints.
func (w *opWorld) barriers(n int) *snapshotpb.OperatorCheckpoint {
	p := tr.Guard(func() {
		for _, s := range w.srs {
			if err := w.op.Send(s, cl.BarrierEvent(uint64(n))); err != nil {
				panic(err)
			}
		}
	})
	c := w.job.OpCk(w.op.IDv, uint64(n))
	if c == nil && p == "" {
		p = "checkpoint not acknowledged"
	}
	t.Ev("Ckpt", tr.M{"ck": n, "panic": p})
	return c
}

func oper() {
	for i := range tr.Pick(110, 1500) {
		r := tr.Rand(int64(200000 + i))
		groups := pick(r, 1, 2, 3, 8)
		w := newOpWorld(r, "oper", groups)
		batch := batching.EventBatcherParams{MaxSize: pick(r, 0, 1, 2, 3, 7)}
		w.deploy(groups, nil, []int{}, batch)
		nck := 0
		var ck *snapshotpb.OperatorCheckpoint
		for range pick(r, 30, 60, 120) {
			w.mu.Lock()
			x := r.Intn(12)
			w.mu.Unlock()
			switch {
			case x < 6:
				w.mu.Lock()
				ev := w.event()
				s := w.srs[r.Intn(len(w.srs))]
				w.mu.Unlock()
				if err := w.op.Send(s, ev); err != nil {
					t.Ev("Err", tr.M{"what": err.Error()})
				}
			case x < 10:
				s := w.srs[r.Intn(len(w.srs))]
				if r.Intn(2) > 0 {
					for _, y := range w.srs {
						if w.wm[y] < w.wm[s] {
							s = y
						}
					}
				}
				w.wm[s] += r.Intn(max(1, w.top/2))
				w.setEff()
				t.Ev("Report", tr.M{"sr": s, "t": w.wm[s]})
				if err := w.op.Send(s, cl.WatermarkEvent(int64(w.wm[s])*int64(w.sc))); err != nil {
					t.Ev("Err", tr.M{"what": err.Error()})
				}
				if batch.MaxSize <= 1 {
					t.Ev("Quiet", tr.M{"panic": ""})
				}
			case x == 10:
				nck++
				ck = w.barriers(nck)
			case ck != nil && r.Intn(2) == 0:
				w.op.Kill()
				w.deploy(groups, []*snapshotpb.OperatorCheckpoint{ck}, []int{int(ck.CheckpointId)}, batch)
			}
		}
		for _, s := range w.srs {
			w.wm[s] += 200
			w.setEff()
			t.Ev("Report", tr.M{"sr": s, "t": w.wm[s]})
			if err := w.op.Send(s, cl.WatermarkEvent(int64(w.wm[s])*int64(w.sc))); err != nil {
				t.Ev("Err", tr.M{"what": err.Error()})
			}
		}
		w.barriers(nck + 1)
		w.op.Kill()
	}
}

// conc: several senders at once; batches also end by time.
func conc() {
	for i := range tr.Pick(90, 1200) {
		r := tr.Rand(int64(300000 + i))
		groups := pick(r, 1, 2, 8)
		w := newOpWorld(r, "conc", groups)
		for len(w.srs) < 2 {
			w.srs = append(w.srs, fmt.Sprintf("s%d", len(w.srs)))
		}
		batch := batching.EventBatcherParams{MaxSize: pick(r, 0, 2, 5, 20), MaxDelay: pick(r, 0, 50*time.Microsecond, 500*time.Microsecond)}
		w.deploy(groups, nil, []int{}, batch)
		for round := range 3 {
			var wg sync.WaitGroup
			for _, s := range w.srs {
				wg.Add(1)
				go func() {
					defer wg.Done()
					for range 6 {
						w.mu.Lock()
						x := r.Intn(3)
						ev := w.event()
						step := r.Intn(max(2, w.top/2))
						pause := r.Intn(4)
						w.mu.Unlock()
						if pause == 0 {
							time.Sleep(100 * time.Microsecond)
						}
						if x == 0 {
							if err := w.op.Send(s, ev); err != nil {
								t.Ev("Err", tr.M{"what": err.Error()})
							}
							continue
						}
						w.mu.Lock()
						w.wm[s] += step
						v := w.wm[s]
						w.setEff()
						w.mu.Unlock()
						t.Ev("Reporting", tr.M{"sr": s, "t": v})
						p := tr.Guard(func() {
							if err := w.op.Send(s, cl.WatermarkEvent(int64(v)*int64(w.sc))); err != nil {
								panic(err)
							}
						})
						t.Ev("Reported", tr.M{"sr": s, "t": v, "panic": p})
					}
				}()
			}
			wg.Wait()
			w.barriers(round + 1)
		}
		w.op.Kill()
	}
}

// ---- the watermarker ------------------------------------------------------------------------

func stamp(x time.Time, base int64) []int { return []int{int(x.Unix() - base), x.Nanosecond()} }

func marks() {
	for i := range tr.Pick(200, 3000) {
		r := tr.Rand(int64(400000 + i))
		base := pick[int64](r, 0, 0, 1_700_000_000, -1, 1<<31-5, 1<<32, 1<<33+3, 100_000_000_000)
		sc := pick[int64](r, 1, 1, 999, 1_000_000, 1_000_000_000, 3_600_000_000_000, 333_333_337, 77_777_777, 999_999_999)
		grid := r.Intn(3) == 0 // few seconds, many fractions
		t.Begin(tr.M{"mode": "marks", "base": fmt.Sprint(base), "scale": sc})
		w := &wmark.Watermarker{}
		top := int64(pick(r, 3, 30, 1000))
		var cur int64
		for range 60 {
			switch r.Intn(4) {
			case 0: // jump
				cur = r.Int63n(top)
			case 1:
				cur++
			case 2:
				cur = max(0, cur-r.Int63n(5))
			}
			ts := time.Unix(base, 0).Add(time.Duration(cur * sc))
			if grid {
				ts = time.Unix(base+int64(r.Intn(4)), pick[int64](r, 0, 1, 2, 999, 1000, 999_999, 1_000_000, 500_000_000, 999_999_998, 999_999_999, r.Int63n(1_000_000_000)))
			}
			if r.Intn(2) == 0 {
				ts = ts.UTC()
			}
			w.AdvanceTime(ts)
			t.Ev("Ev", tr.M{"t": stamp(ts, base)})
			for range r.Intn(3) {
				t.Ev("Wm", tr.M{"t": stamp(w.CurrentWatermark(), base)})
			}
		}
	}
}

// ---- recorded limits of the stored form of a timer's time -------------------------------------

func years(v int) time.Time { return time.Unix(int64(v)*31_536_000, 0) }

func limits() {
	type step struct {
		set bool
		v   int
	}
	for name, steps := range map[string][]step{
		"before1970": {{false, -100}, {true, -5}, {true, 5}, {false, -1}},
		"after2262":  {{true, 330}, {true, 10}, {false, 20}},
	} {
		fs := storage.NewMemoryFilesystem()
		t.Begin(tr.M{"mode": "limits", "case": name})
		t.Ev("Deploy", tr.M{"srs": []string{"s"}, "cks": []int{}, "keys": []any{tr.Bytes([]byte("k"))}, "panic": ""})
		db := dkv.Open(dkv.DBOptions{FileSystem: fs}, nil)
		ks := partitioning.NewKeySpace(1, 1)
		reg := operator.NewTimerRegistry(operator.NewTimerStore(db, ks, ks.KeyGroupRanges()[0], 1<<20), []string{"s"})
		for i, st := range steps {
			if st.set {
				t.Ev("Set", tr.M{"k": tr.Bytes([]byte("k")), "t": st.v, "panic": tr.Guard(func() { reg.SetTimer([]byte("k"), years(st.v)) })})
				continue
			}
			t.Ev("Report", tr.M{"sr": "s", "t": st.v})
			p := tr.Guard(func() {
				for k, at := range reg.AdvanceWatermark("s", &workerpb.Watermark{Timestamp: timestamppb.New(years(st.v))}) {
					v := -999
					if at.Unix()%31_536_000 == 0 {
						v = int(at.Unix() / 31_536_000)
					}
					t.Ev("Fire", tr.M{"k": tr.Bytes(k), "t": v})
				}
			})
			t.Ev("Quiet", tr.M{"panic": p, "step": i})
		}
	}
}

func main() {
	cl.Quiet()
	t = tr.New()
	switch os.Args[1] {
	case "reg":
		registry()
	case "oper":
		oper()
	case "conc":
		conc()
	case "limits":
		limits()
	case "marks":
		marks()
	}
	fmt.Printf("%d traces, %d events\n", t.Traces, t.Events)
}
