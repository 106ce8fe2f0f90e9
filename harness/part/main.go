// Driver for C05: key spaces, hashing, routing by source runners and key prefixes persisted by operators.
package main

import (
	"encoding/binary"
	"fmt"
	"math/rand"
	"os"
	"sync"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	"reduction.dev/reduction-protocol/jobconfigpb"
	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/recovery"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/partitioning"
	"reduction.dev/reduction/proto"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/util/murmur"
	"reduction.dev/reduction/zzverif/cl"
	"reduction.dev/reduction/zzverif/tr"
)

func main() {
	cl.Quiet()
	t := tr.New()
	switch os.Args[1] {
	case "space":
		space(t)
	case "hash":
		hash(t)
	case "runner":
		runner(t)
	case "operator":
		persisted(t)
	case "assign":
		assign(t)
	}
}

func spaceEv(t *tr.T, g, n int) {
	var rs [][]int
	p := tr.Guard(func() {
		for _, r := range partitioning.NewKeySpace(g, n).KeyGroupRanges() {
			rs = append(rs, []int{r.Start, r.End})
		}
	})
	t.Ev("Space", tr.M{"g": g, "n": n, "ranges": rs, "panic": p})
}

// assign: checkpoints of m operators, recorded in any order, for n operators
func assign(t *tr.T) {
	rng := tr.Rand(9)
	one := func(g, m, n int, perm []int) {
		to, old := partitioning.NewKeySpace(g, n).KeyGroupRanges(), partitioning.NewKeySpace(g, m).KeyGroupRanges()
		var from []partitioning.KeyGroupRange
		rs, ts := [][]int{}, [][]int{}
		for _, i := range perm {
			from = append(from, old[i])
			rs = append(rs, []int{old[i].Start, old[i].End})
		}
		for _, r := range to {
			ts = append(ts, []int{r.Start, r.End})
		}
		out := [][]int{}
		p := tr.Guard(func() {
			for _, a := range partitioning.AssignRanges(to, from) {
				out = append(out, append([]int{}, a...))
			}
		})
		t.Ev("Assign", tr.M{"to": ts, "from": rs, "out": out, "panic": p})
	}
	for _, g := range []int{1, 2, 3, 5, 7, 8, 12} {
		t.Begin(tr.M{"g": g, "n": 1})
		for m := 1; m <= 4; m++ {
			for n := 1; n <= tr.Pick(6, 9); n++ {
				perms(m, func(p []int) { one(g, m, n, p) })
			}
		}
	}
	for i := 0; i < tr.Pick(60, 1500); i++ {
		g, n := bounds(rng)
		n = 1 + n%30
		t.Begin(tr.M{"g": g, "n": n})
		for k := 0; k < 4; k++ {
			m := 1 + rng.Intn(30)
			one(g, m, n, rng.Perm(m))
		}
	}
}

func perms(n int, f func([]int)) {
	var rec func(p []int)
	rec = func(p []int) {
		if len(p) == n {
			f(p)
			return
		}
		for i := range n {
			used := false
			for _, x := range p {
				used = used || x == i
			}
			if !used {
				rec(append(append([]int{}, p...), i))
			}
		}
	}
	rec(nil)
}

func bounds(rng *rand.Rand) (int, int) {
	gs := []int{1, 2, 3, 7, 8, 15, 16, 17, 31, 64, 100, 127, 128, 129, 255, 256, 257, 1000, 4095, 4096, 9999, 16384, 32766, 32767, 32768, 32769, 40000, 65534, 65535}
	g := gs[rng.Intn(len(gs))]
	if rng.Intn(3) == 0 {
		g = 1 + rng.Intn(65535)
	}
	n := 1 + rng.Intn(40)
	switch rng.Intn(6) {
	case 0:
		n = g
	case 1:
		n = 1 + rng.Intn(300)
	case 2:
		n = g + 1 + rng.Intn(5)
	}
	if n > 400 {
		n = 1 + n%400
	}
	return g, n
}

func space(t *tr.T) {
	for g := 1; g <= tr.Pick(48, 130); g++ {
		t.Begin(tr.M{"g": g, "n": 1})
		for n := 1; n <= tr.Pick(50, 140); n++ {
			spaceEv(t, g, n)
		}
	}
	rng := tr.Rand(1)
	for i := 0; i < tr.Pick(40, 400); i++ {
		g, n := bounds(rng)
		t.Begin(tr.M{"g": g, "n": n})
		spaceEv(t, g, n)
		var ks *partitioning.KeySpace
		if p := tr.Guard(func() { ks = partitioning.NewKeySpace(g, n) }); p != "" {
			continue
		}
		rs := ks.KeyGroupRanges()
		for j := 0; j < 12; j++ {
			kg := rng.Intn(g)
			if j < len(rs)*2 && rng.Intn(2) == 0 { // groups at range borders
				r := rs[rng.Intn(len(rs))]
				kg = min(g-1, max(0, r.Start-rng.Intn(2)))
			}
			in, at := []int{}, -1
			p := tr.Guard(func() {
				for k, r := range rs {
					if r.IncludesKeyGroup(partitioning.KeyGroup(kg)) {
						in = append(in, k)
						at = r.IndexOf(partitioning.KeyGroup(kg))
						if kgs := r.KeyGroups(); len(kgs) != r.Size() || kgs[at] != partitioning.KeyGroup(kg) {
							at = -2
						}
					}
				}
			})
			t.Ev("Member", tr.M{"g": g, "n": n, "group": kg, "in": in, "at": at, "panic": p})
			b := make([]byte, 2)
			back := 0
			p = tr.Guard(func() {
				partitioning.KeyGroup(kg).PutBytes(b)
				back = int(partitioning.KeyGroupFromBytes(b))
			})
			t.Ev("Bytes", tr.M{"group": kg, "bytes": tr.Bytes(b), "back": back, "panic": p})
		}
	}
}

func randKey(rng *rand.Rand) []byte {
	n := rng.Intn(24)
	if rng.Intn(12) == 0 {
		n = rng.Intn(90)
	}
	b := make([]byte, n)
	switch rng.Intn(4) {
	case 0: // high bytes
		for i := range b {
			b[i] = byte(0x80 + rng.Intn(128))
		}
	case 1: // text
		for i := range b {
			b[i] = byte('a' + rng.Intn(26))
		}
	case 2: // few distinct bytes
		for i := range b {
			b[i] = []byte{0, 255, 128, 127}[rng.Intn(4)]
		}
	default:
		rng.Read(b)
	}
	return b
}

func hash(t *tr.T) {
	rng := tr.Rand(2)
	t.Begin(tr.M{"g": 1, "n": 1})
	hv := func(key []byte) {
		var h uint32
		in := append([]byte(nil), key...)
		p := tr.Guard(func() { h = murmur.Hash(in, 0) })
		t.Ev("Hash", tr.M{"key": tr.Bytes(key), "h": []int{int(h & 255), int(h >> 8 & 255), int(h >> 16 & 255), int(h >> 24)}, "panic": p})
	}
	// every single byte, and every length with bytes of every quarter of the range
	for i := 0; i < 256; i++ {
		hv([]byte{byte(i)})
	}
	for n := 0; n <= 40; n++ {
		for _, f := range []byte{0, 1, 127, 128, 200, 255} {
			b := make([]byte, n)
			for i := range b {
				b[i] = f
			}
			hv(b)
		}
	}
	for _, n := range []int{255, 256, 257, 300, 1000, 4099, 65538} {
		b := make([]byte, n)
		rng.Read(b)
		hv(b)
	}
	for i := 0; i < tr.Pick(60, 1500); i++ {
		g, n := bounds(rng)
		t.Begin(tr.M{"g": g, "n": n})
		var ks, ks2 *partitioning.KeySpace
		if p := tr.Guard(func() {
			ks = partitioning.NewKeySpace(g, n)
			ks2 = partitioning.NewKeySpace(g, n)
		}); p != "" {
			t.Ev("Route", tr.M{"g": g, "n": n, "key": []int{}, "group": 0, "index": 0, "panic": p})
			continue
		}
		for j := 0; j < 25; j++ {
			key := randKey(rng)
			hv(key)
			for _, s := range []*partitioning.KeySpace{ks, ks2} { // two processes
				var kg, ix int
				in := append([]byte(nil), key...)
				p := tr.Guard(func() {
					kg = int(s.KeyGroup(in))
					ix = s.RangeIndex(in)
				})
				t.Ev("Route", tr.M{"g": g, "n": n, "key": tr.Bytes(key), "group": kg, "index": ix, "panic": p})
			}
		}
	}
}

// reader hands out records in batches and then blocks.
type reader struct {
	connectors.UnimplementedSourceReader
	batches [][][]byte
}

func (r *reader) AssignSplits([]*workerpb.SourceSplit) error { return nil }
func (r *reader) Checkpoint() [][]byte                       { return nil }
func (r *reader) ReadEvents() ([][]byte, error) {
	if len(r.batches) == 0 {
		return nil, connectors.ErrEndOfInput
	}
	b := r.batches[0]
	r.batches = r.batches[1:]
	return b, nil
}

func runner(t *tr.T) {
	rng := tr.Rand(3)
	for i := 0; i < tr.Pick(40, 400); i++ {
		g, n := bounds(rng)
		n = 1 + n%12
		t.Begin(tr.M{"g": g, "n": n})
		var batches [][][]byte
		total := 0
		for b := 0; b < 3; b++ {
			var bs [][]byte
			for k := 0; k < 8; k++ {
				var rec cl.Record
				for e := rng.Intn(3); e >= 0; e-- {
					total++
					key := randKey(rng)
					rec.Evs = append(rec.Evs, cl.Ev{ID: total, Key: key, TS: int64(total)})
					t.Ev("Sent", tr.M{"key": tr.Bytes(key)})
				}
				bs = append(bs, rec.Marshal())
			}
			batches = append(batches, bs)
		}
		var mu sync.Mutex
		arrived := 0
		ops := map[string]proto.Operator{}
		var ids []string
		for k := range n {
			id := fmt.Sprintf("op%d", k)
			ids = append(ids, id)
			ops[id] = &cl.FakeOp{IDv: id, OnBatch: func(evs []*workerpb.Event) error {
				mu.Lock()
				defer mu.Unlock()
				for _, ev := range evs {
					if ke := ev.GetKeyedEvent(); ke != nil {
						arrived++
						t.Ev("Arrived", tr.M{"id": cl.EvOf(ke).ID, "key": tr.Bytes(ke.Key), "op": k})
					}
				}
				return nil
			}}
		}
		sr := cl.NewSR(&cl.Job{}, &cl.Handler{}, batching.EventBatcherParams{MaxSize: 1 + rng.Intn(4), MaxDelay: time.Millisecond},
			func(_ string, node *jobpb.NodeIdentity) proto.Operator { return ops[node.Id] },
			func(*jobconfigpb.Source) connectors.SourceReader { return &reader{batches: batches} })
		if err := sr.DeployTo(ids, g); err != nil {
			panic(err)
		}
		if err := sr.HandleAssignSplits([]*workerpb.SourceSplit{{SplitId: "s"}}); err != nil {
			panic(err)
		}
		cl.Wait(20*time.Second, func() bool { mu.Lock(); defer mu.Unlock(); return arrived >= total })
		mu.Lock()
		t.Ev("AllArrived", nil)
		mu.Unlock()
		sr.Kill()
	}
}

func persisted(t *tr.T) {
	rng := tr.Rand(4)
	for i := 0; i < tr.Pick(60, 500); i++ {
		g, n := bounds(rng)
		n = 1 + n%10
		if g > 2000 {
			g = 1 + g%2000 // one timer queue per group
		}
		own := rng.Intn(n)
		t.Begin(tr.M{"g": g, "n": n})
		var ids []string
		for k := range n {
			ids = append(ids, fmt.Sprintf("op%d", k))
		}
		dkv.TuneOptions = func(o *dkv.DBOptions) {
			o.MemTableSize = []uint64{300, 3000, 1 << 20}[i%3]
			o.TargetFileSize = 500
		}
		dir := cl.Scratch()
		job := &cl.Job{}
		op := cl.NewOp(ids[own], job, &cl.Handler{}, batching.EventBatcherParams{MaxSize: 1 + rng.Intn(4)}, nil)
		if err := op.Deploy(ids, []string{"s"}, g, dir, nil); err != nil {
			panic(err)
		}
		// the keys a router would send here: decided by the code under test's own key space
		ks := partitioning.NewKeySpace(g, n)
		sent := 0
		for k := 0; k < 400 && sent < 12; k++ {
			key := randKey(rng)
			if ks.RangeIndex(key) != own {
				continue
			}
			sent++
			t.Ev("Sent", tr.M{"key": tr.Bytes(key)})
			ev := cl.Ev{ID: sent, Key: key, Timers: []int64{int64(1000 + rng.Intn(1000))}}
			for m := rng.Intn(3); m >= 0; m-- {
				ev.Muts = append(ev.Muts, cl.Mut{NS: []string{"", "a", "bb"}[rng.Intn(3)], K: randKey(rng), V: key})
			}
			if err := sendRetry(op, ev); err != nil {
				panic(err)
			}
		}
		if err := op.Send("s", cl.BarrierEvent(1)); err != nil {
			panic(err)
		}
		ck := job.OpCk(ids[own], 1)
		if ck == nil {
			t.Ev("Persisted", tr.M{"op": own, "state": []int{}, "timers": []int{}, "panic": "no checkpoint"})
			op.Kill()
			continue
		}
		state, timers := []tr.M{}, []int{}
		p := tr.Guard(func() {
			fs, err := storage.NewFileSystemFromLocation(storage.Join(dir, "inspect"))
			if err != nil {
				panic(err)
			}
			db := dkv.Open(dkv.DBOptions{FileSystem: fs}, []recovery.CheckpointHandle{{CheckpointID: 1, URI: ck.DkvFileUri}})
			var serr error
			for e := range db.ScanPrefix(nil, &serr) {
				pre := int(binary.BigEndian.Uint16(e.Key()[:2]))
				if e.Key()[2] == 0x01 {
					timers = append(timers, pre)
				} else {
					state = append(state, tr.M{"prefix": pre, "key": tr.Bytes(e.Value())})
				}
			}
			if serr != nil {
				panic(serr)
			}
		})
		t.Ev("Persisted", tr.M{"op": own, "state": state, "timers": timers, "panic": p})
		op.Kill()
	}
}

func sendRetry(op *cl.Op, e cl.Ev) error {
	for i := 0; ; i++ {
		err := op.Send("s", cl.KeyedEvent(e))
		if err == nil || i > 200 {
			return err
		}
		time.Sleep(time.Millisecond)
	}
}

var _ = timestamppb.New
