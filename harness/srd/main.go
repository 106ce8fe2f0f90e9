// Driver for C04, C11 and C16: a real source runner between a scripted reader, handler and operators,
// many runs at a time.
package main

import (
	"context"
	"encoding/json"
	"errors"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"

	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction-protocol/jobconfigpb"
	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/proto"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/zzverif/cl"
	"reduction.dev/reduction/zzverif/tr"
)

var all *tr.T

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

type world struct {
	t      *tr.R
	mu     sync.Mutex
	r      *rand.Rand
	splits map[string]int // positions of assigned splits
	order  []string
	start  map[string]int
	g      *shared
	prefix string
	nextTS int64
	keys   [][]byte
	left   int // records still to read
	burst  int
	eoi    bool
	fails  int
	top    int64
	seenTS map[int64]bool
}

// shared numbers the events of all readers in the order of the Read events.
type shared struct {
	mu    sync.Mutex
	n     int
	deliv int
}

type posVal struct {
	Split string
	Pos   int
}

func (w *world) rnd(n int) int {
	w.mu.Lock()
	defer w.mu.Unlock()
	return w.r.Intn(n)
}

// ---- the reader
func (w *world) AssignSplits(ss []*workerpb.SourceSplit) error {
	w.mu.Lock()
	defer w.mu.Unlock()
	for _, s := range ss {
		p := 0
		if len(s.Cursor) > 0 {
			json.Unmarshal(s.Cursor, &p)
		}
		w.splits[s.SplitId] = p
		w.order = append(w.order, s.SplitId)
	}
	return nil
}

func (w *world) Checkpoint() [][]byte {
	w.mu.Lock()
	defer w.mu.Unlock()
	var out [][]byte
	for _, s := range w.order {
		b, _ := json.Marshal(posVal{s, w.splits[s]})
		out = append(out, b)
	}
	return out
}

func (w *world) ts() int64 {
	for {
		switch w.r.Intn(3) {
		case 0:
			w.nextTS = w.top + int64(w.r.Intn(4000))
		case 1:
			w.nextTS = w.top + 1 + int64(w.r.Intn(2))
		default:
			w.nextTS = max(0, w.top-int64(w.r.Intn(5000)))
		}
		if !w.seenTS[w.nextTS] {
			w.seenTS[w.nextTS] = true
			w.top = max(w.top, w.nextTS)
			return w.nextTS
		}
		w.top++
	}
}

func (w *world) ReadEvents() ([][]byte, error) {
	// a read takes time; the runner waits for it
	if d := w.rnd(6); d > 0 {
		time.Sleep(time.Duration(d*d*d) * time.Millisecond / 4)
	}
	w.mu.Lock()
	defer w.mu.Unlock()
	if w.left <= 0 && w.eoi {
		return nil, connectors.ErrEndOfInput
	}
	if w.left <= 0 {
		w.mu.Unlock()
		time.Sleep(30 * time.Millisecond)
		w.mu.Lock()
		return nil, nil
	}
	if w.fails > 0 && w.r.Intn(4) == 0 {
		w.fails--
		return nil, connectors.NewRetryableError(errors.New("try again"))
	}
	var recs [][]byte
	evs := []tr.M{}
	w.g.mu.Lock()
	defer w.g.mu.Unlock()
	for range w.r.Intn(w.burst + 1) {
		if w.left <= 0 {
			break
		}
		w.left--
		s := w.order[w.r.Intn(len(w.order))]
		w.splits[s]++
		rec := cl.Record{Evs: []cl.Ev{}}
		for range pick(w.r, 0, 1, 1, 1, 1, 2, 3) {
			w.g.n++
			e := cl.Ev{ID: w.g.n, Key: w.keys[w.r.Intn(len(w.keys))], TS: w.ts()}
			rec.Evs = append(rec.Evs, e)
			evs = append(evs, tr.M{"split": s, "pos": w.splits[s], "key": tr.Bytes(e.Key), "ts": e.TS})
		}
		recs = append(recs, rec.Marshal())
	}
	w.t.Ev("Read", tr.M{"evs": evs})
	if w.left <= 0 && w.eoi && w.r.Intn(2) == 0 {
		return recs, connectors.ErrEndOfInput
	}
	return recs, nil
}

type op struct {
	cl.FakeOp
	w    *world
	n    int
	slow int
	busy sync.Mutex
}

func (o *op) HandleEventBatch(ctx context.Context, batch []*workerpb.Event) error {
	if o.slow > 0 {
		time.Sleep(time.Duration(o.w.rnd(o.slow)) * time.Millisecond)
	}
	items := []tr.M{}
	nev := 0
	for _, ev := range batch {
		switch x := ev.Event.(type) {
		case *workerpb.Event_KeyedEvent:
			e := cl.EvOf(x.KeyedEvent)
			ts := x.KeyedEvent.Timestamp.AsTime()
			items = append(items, tr.M{"k": "ev", "id": e.ID, "key": tr.Bytes(x.KeyedEvent.Key), "ts": ts.UnixNano()})
			nev++
		case *workerpb.Event_Watermark:
			at := x.Watermark.Timestamp.AsTime()
			v := int64(-1000)
			if at.After(time.Unix(0, -1000)) {
				v = at.UnixNano()
			}
			items = append(items, tr.M{"k": "wm", "t": v})
		case *workerpb.Event_CheckpointBarrier:
			items = append(items, tr.M{"k": "bar", "n": x.CheckpointBarrier.CheckpointId})
		case *workerpb.Event_SourceComplete:
			items = append(items, tr.M{"k": "end"})
		}
	}
	o.w.g.mu.Lock()
	o.w.g.deliv += nev
	o.w.g.mu.Unlock()
	if len(items) > 0 {
		o.w.t.Ev("Batch", tr.M{"op": o.n, "items": items})
	}
	return nil
}

func newWorld(r *rand.Rand, g *shared) *world {
	w := &world{r: r, splits: map[string]int{}, seenTS: map[int64]bool{}, left: pick(r, 5, 20, 40), burst: pick(r, 1, 3, 8, 20),
		eoi: r.Intn(2) == 0, fails: pick(r, 0, 0, 2), g: g, prefix: "p"}
	for range pick(r, 1, 2, 5) {
		k := make([]byte, r.Intn(4))
		r.Read(k)
		w.keys = append(w.keys, k)
	}
	return w
}

func run(i int) {
	r := tr.Rand(int64(500000 + i))
	w := newWorld(r, &shared{})
	nops := pick(r, 1, 2, 3)
	params := batching.EventBatcherParams{MaxSize: pick(r, 0, 1, 2, 3, 10, 100), MaxDelay: pick(r, 0, time.Millisecond, 10*time.Millisecond, 100*time.Millisecond)}
	slowKey := pick(r, 0, 2, 20, 60)
	slowOp := pick(r, 0, 0, 3, 30)
	if r.Intn(6) == 0 { // enough to fill the runner's queues
		slowOp, w.left, w.burst = 5, 60, 40
	}
	ncks := r.Intn(4)
	t := all.Start(tr.M{"ops": nops, "size": params.MaxSize, "delay": params.MaxDelay.String(), "slowkey": slowKey, "slowop": slowOp, "records": w.left, "burst": w.burst, "eoi": w.eoi})
	flushes := params.MaxSize <= 1 || params.MaxDelay > 0
	res := ""
	complete := false
	w.t = t
	func() {
		h := &cl.Handler{OnKey: func(records [][]byte) {
			if slowKey > 0 {
				time.Sleep(time.Duration(w.rnd(slowKey*1000)) * time.Microsecond)
			}
		}}
		job := &cl.Job{OnSR: func(req *jobpb.SourceRunnerCheckpointCompleteRequest) error {
			ps := [][]any{}
			for _, b := range req.SplitStates {
				var p posVal
				if err := json.Unmarshal(b, &p); err != nil {
					return err
				}
				ps = append(ps, []any{p.Split, p.Pos})
			}
			t.Ev("Pos", tr.M{"ck": req.CheckpointId, "splits": ps})
			return nil
		}}
		ops := make([]*op, nops)
		ids := []string{}
		for j := range ops {
			ops[j] = &op{w: w, n: j + 1, slow: slowOp}
			ids = append(ids, fmt.Sprintf("op%d", j))
		}
		sr := cl.NewSR(job, h, params, func(sender string, n *jobpb.NodeIdentity) proto.Operator {
			for j, id := range ids {
				if id == n.Id {
					return ops[j]
				}
			}
			panic("unknown operator")
		}, func(*jobconfigpb.Source) connectors.SourceReader { return w })
		if err := sr.DeployTo(ids, 16); err != nil {
			res = err.Error()
			return
		}
		nsplits := 1 + w.rnd(3)
		var ss []*workerpb.SourceSplit
		for j := range nsplits {
			ss = append(ss, &workerpb.SourceSplit{SplitId: fmt.Sprintf("p%d", j)})
		}
		cut := w.rnd(nsplits) + 1
		sr.HandleAssignSplits(ss[:cut])
		if cut < nsplits {
			time.Sleep(time.Duration(w.rnd(40)) * time.Millisecond)
			sr.HandleAssignSplits(ss[cut:])
		}
		for c := range ncks {
			time.Sleep(time.Duration(w.rnd(300)) * time.Millisecond)
			sr.HandleStartCheckpoint(context.Background(), uint64(c+1))
		}
		// wait until everything has arrived
		for range 400 {
			time.Sleep(50 * time.Millisecond)
			w.mu.Lock()
			left := w.left
			w.mu.Unlock()
			w.g.mu.Lock()
			done := left <= 0 && w.g.deliv == w.g.n
			w.g.mu.Unlock()
			if done {
				break
			}
		}
		time.Sleep(450 * time.Millisecond)
		complete = flushes
		if os.Getenv("DEBUG") != "" {
			fmt.Println(i, sr.Err)
		}
		sr.Halt()
	}()
	t.Ev("End", tr.M{"panic": res, "complete": complete})
	t.Done()
}

// flow: real source runners feeding real operators; what reaches the operators' handlers counts.
func flow(i int) {
	r := tr.Rand(int64(700000 + i))
	nsr, nops := 1+r.Intn(3), 1+r.Intn(3)
	g := &shared{}
	prm := func() batching.EventBatcherParams {
		return batching.EventBatcherParams{MaxSize: pick(r, 0, 1, 2, 3, 10, 100), MaxDelay: pick(r, 0, time.Millisecond, 5*time.Millisecond, 50*time.Millisecond)}
	}
	flushes := func(p batching.EventBatcherParams) bool { return p.MaxSize <= 1 || p.MaxDelay > 0 }
	srp, opp := prm(), prm()
	ncks := r.Intn(3)
	slow := pick(r, 0, 0, 3, 15)
	slowKey := pick(r, 0, 0, 4, 20)
	t := all.Start(tr.M{"ops": nops, "srs": nsr, "sr": fmt.Sprint(srp), "op": fmt.Sprint(opp), "slow": slow, "cks": ncks})
	complete := flushes(srp) && flushes(opp)
	res := ""
	fail := func(err error) {
		if err != nil && res == "" {
			res = err.Error()
		}
	}
	job := &cl.Job{}
	var rmu sync.Mutex
	rnd := func(n int) int {
		rmu.Lock()
		defer rmu.Unlock()
		return r.Intn(n)
	}
	dir := cl.Scratch()
	var ids, srids []string
	var ops []*cl.Op
	for j := range nops {
		n := j + 1
		h := &cl.Handler{OnReq: func(req *handlerpb.ProcessEventBatchRequest) {
			items := []tr.M{}
			for _, ev := range req.Events {
				if k := ev.GetKeyedEvent(); k != nil {
					e := cl.EvOf(k)
					items = append(items, tr.M{"k": "ev", "id": e.ID, "key": tr.Bytes(k.Key), "ts": k.Timestamp.AsTime().UnixNano()})
				}
			}
			if len(items) > 0 {
				t.Ev("Batch", tr.M{"op": n, "items": items})
				g.mu.Lock()
				g.deliv += len(items)
				g.mu.Unlock()
			}
			if slow > 0 {
				time.Sleep(time.Duration(rnd(slow*1000)) * time.Microsecond)
			}
		}}
		ids = append(ids, fmt.Sprintf("op%d", j))
		ops = append(ops, cl.NewOp(ids[j], job, h, opp, nil))
	}
	var srs []*cl.SR
	var ws []*world
	keys := newWorld(r, g).keys
	for j := range nsr {
		w := newWorld(rand.New(rand.NewSource(r.Int63())), g)
		w.t, w.prefix, w.keys = t, fmt.Sprintf("s%d.", j), keys
		ws = append(ws, w)
		h := &cl.Handler{OnKey: func([][]byte) {
			if slowKey > 0 {
				time.Sleep(time.Duration(w.rnd(slowKey*1000)) * time.Microsecond)
			}
		}}
		var sr *cl.SR
		sr = cl.NewSR(job, h, srp, func(sender string, n *jobpb.NodeIdentity) proto.Operator {
			for k, id := range ids {
				if id == n.Id {
					return &cl.Peer{Op: ops[k], From: sender}
				}
			}
			panic("unknown operator")
		}, func(*jobconfigpb.Source) connectors.SourceReader { return w })
		srs = append(srs, sr)
		srids = append(srids, sr.ID)
	}
	for _, o := range ops {
		fail(o.Deploy(ids, srids, 16, dir, nil))
	}
	for j, sr := range srs {
		fail(sr.DeployTo(ids, 16))
		var ss []*workerpb.SourceSplit
		for k := range 1 + rnd(3) {
			ss = append(ss, &workerpb.SourceSplit{SplitId: fmt.Sprintf("%sp%d", ws[j].prefix, k)})
		}
		fail(sr.HandleAssignSplits(ss))
	}
	for c := range ncks {
		time.Sleep(time.Duration(rnd(150)) * time.Millisecond)
		for _, sr := range srs {
			sr.HandleStartCheckpoint(context.Background(), uint64(c+1))
		}
		// one checkpoint at a time: the next starts when this one is complete
		if !cl.Wait(30*time.Second, func() bool {
			for _, id := range ids {
				if job.OpCk(id, uint64(c+1)) == nil {
					return false
				}
			}
			return true
		}) && complete {
			fail(fmt.Errorf("checkpoint %d not taken", c+1))
		}
		if !complete {
			break
		}
	}
	cl.Wait(20*time.Second, func() bool {
		left := 0
		for _, w := range ws {
			w.mu.Lock()
			left += max(0, w.left)
			w.mu.Unlock()
		}
		g.mu.Lock()
		defer g.mu.Unlock()
		return left == 0 && (g.deliv == g.n || !complete)
	})
	time.Sleep(60 * time.Millisecond) // something delivered twice would show up
	for _, sr := range srs {
		sr.Halt()
	}
	for _, o := range ops {
		o.Halt()
	}
	t.Ev("End", tr.M{"panic": res, "complete": complete})
	t.Done()
}

func main() {
	cl.Quiet()
	all = tr.New()
	switch os.Args[1] {
	case "sr":
		tr.Parallel(tr.Pick(260, 4000), 48, run)
	case "flow":
		tr.Parallel(tr.Pick(160, 3000), 32, flow)
	}
	fmt.Printf("%d traces, %d events\n", all.Traces, all.Events)
}
