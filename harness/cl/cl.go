// Package cl holds the simulated surroundings of real operators and source runners: job, handler, sink,
// source reader, and adapters connecting them in one process.
package cl

import (
	"context"
	"encoding/json"
	"fmt"
	"io"
	"log/slog"
	"os"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"

	"google.golang.org/protobuf/types/known/timestamppb"
	"reduction.dev/reduction-protocol/handlerpb"
	"reduction.dev/reduction-protocol/jobconfigpb"
	"reduction.dev/reduction/batching"
	"reduction.dev/reduction/clocks"
	"reduction.dev/reduction/connectors"
	"reduction.dev/reduction/proto"
	"reduction.dev/reduction/proto/jobpb"
	"reduction.dev/reduction/proto/snapshotpb"
	"reduction.dev/reduction/proto/workerpb"
	"reduction.dev/reduction/workers/operator"
	"reduction.dev/reduction/workers/sourcerunner"
)

func Quiet() { slog.SetDefault(slog.New(slog.NewTextHandler(io.Discard, nil))) }

var scratchN atomic.Int64

// Scratch makes a new directory below $SCRATCH.
func Scratch() string {
	d := filepath.Join(os.Getenv("SCRATCH"), fmt.Sprintf("d%06d", scratchN.Add(1)))
	if err := os.MkdirAll(d, 0o755); err != nil {
		panic(err)
	}
	return d
}

// ---- records ------------------------------------------------------------------------------

// Mut is one put or delete the handler returns.
type Mut struct {
	NS  string
	K   []byte
	V   []byte
	Del bool
}

// Ev is a keyed event; it tells the handler what to return.
type Ev struct {
	ID     int
	Key    []byte
	TS     int64 // nanoseconds
	Muts   []Mut
	Timers []int64
	Src    string
	Seq    int
}

// Record is one source record: it maps to any number of keyed events.
type Record struct{ Evs []Ev }

func (r Record) Marshal() []byte {
	b, err := json.Marshal(r)
	if err != nil {
		panic(err)
	}
	return b
}

func (e Ev) Keyed() *handlerpb.KeyedEvent {
	b, err := json.Marshal(e)
	if err != nil {
		panic(err)
	}
	return &handlerpb.KeyedEvent{Key: e.Key, Timestamp: timestamppb.New(time.Unix(0, e.TS)), Value: b}
}

func EvOf(k *handlerpb.KeyedEvent) Ev {
	var e Ev
	if err := json.Unmarshal(k.Value, &e); err != nil {
		panic(err)
	}
	return e
}

// ---- handler ------------------------------------------------------------------------------

// Handler follows the script in the events.
type Handler struct {
	OnKey   func(records [][]byte)                                           // before keying
	OnReq   func(req *handlerpb.ProcessEventBatchRequest)                    // a call arrives
	OnResp  func(req *handlerpb.ProcessEventBatchRequest, rs []KeyResp)      // before it returns
	OnTimer func(key []byte, ts int64) (muts []Mut, timers []int64)          // what a timer makes the handler return
	Respond func(req *handlerpb.ProcessEventBatchRequest) ([]KeyResp, error) // overrides the script
}

type KeyResp struct {
	Key    []byte
	Muts   []Mut
	Timers []int64
}

func (h *Handler) KeyEventBatch(ctx context.Context, events [][]byte) ([][]*handlerpb.KeyedEvent, error) {
	if h.OnKey != nil {
		h.OnKey(events)
	}
	out := make([][]*handlerpb.KeyedEvent, len(events))
	for i, b := range events {
		var r Record
		if err := json.Unmarshal(b, &r); err != nil {
			return nil, err
		}
		for _, e := range r.Evs {
			out[i] = append(out[i], e.Keyed())
		}
	}
	return out, nil
}

func (h *Handler) Script(req *handlerpb.ProcessEventBatchRequest) []KeyResp {
	var rs []KeyResp
	idx := map[string]int{}
	at := func(key []byte) *KeyResp {
		i, ok := idx[string(key)]
		if !ok {
			i = len(rs)
			idx[string(key)] = i
			rs = append(rs, KeyResp{Key: key})
		}
		return &rs[i]
	}
	for _, ev := range req.Events {
		switch t := ev.Event.(type) {
		case *handlerpb.Event_KeyedEvent:
			e := EvOf(t.KeyedEvent)
			r := at(t.KeyedEvent.Key)
			r.Muts = append(r.Muts, e.Muts...)
			r.Timers = append(r.Timers, e.Timers...)
		case *handlerpb.Event_TimerExpired:
			if h.OnTimer != nil {
				m, tm := h.OnTimer(t.TimerExpired.Key, t.TimerExpired.Timestamp.AsTime().UnixNano())
				r := at(t.TimerExpired.Key)
				r.Muts = append(r.Muts, m...)
				r.Timers = append(r.Timers, tm...)
			}
		}
	}
	return rs
}

func (h *Handler) ProcessEventBatch(ctx context.Context, req *handlerpb.ProcessEventBatchRequest) (*handlerpb.ProcessEventBatchResponse, error) {
	if h.OnReq != nil {
		h.OnReq(req)
	}
	var rs []KeyResp
	if h.Respond != nil {
		var err error
		if rs, err = h.Respond(req); err != nil {
			return nil, err
		}
	} else {
		rs = h.Script(req)
	}
	if h.OnResp != nil {
		h.OnResp(req, rs)
	}
	resp := &handlerpb.ProcessEventBatchResponse{}
	for _, r := range rs {
		kr := &handlerpb.KeyResult{Key: r.Key}
		for _, t := range r.Timers {
			kr.NewTimers = append(kr.NewTimers, timestamppb.New(time.Unix(0, t)))
		}
		// consecutive mutations of the same namespace share a group
		for _, m := range r.Muts {
			n := len(kr.StateMutationNamespaces)
			if n == 0 || kr.StateMutationNamespaces[n-1].Namespace != m.NS {
				kr.StateMutationNamespaces = append(kr.StateMutationNamespaces, &handlerpb.StateMutationNamespace{Namespace: m.NS})
				n++
			}
			g := kr.StateMutationNamespaces[n-1]
			if m.Del {
				g.Mutations = append(g.Mutations, &handlerpb.StateMutation{Mutation: &handlerpb.StateMutation_Delete{Delete: &handlerpb.DeleteMutation{Key: m.K}}})
			} else {
				g.Mutations = append(g.Mutations, &handlerpb.StateMutation{Mutation: &handlerpb.StateMutation_Put{Put: &handlerpb.PutMutation{Key: m.K, Value: m.V}}})
			}
		}
		resp.KeyResults = append(resp.KeyResults, kr)
	}
	return resp, nil
}

var _ proto.Handler = (*Handler)(nil)

// ---- job and sink -------------------------------------------------------------------------

type Job struct {
	proto.NoopJob
	mu    sync.Mutex
	OnOp  func(*snapshotpb.OperatorCheckpoint) error
	OnSR  func(*jobpb.SourceRunnerCheckpointCompleteRequest) error
	OpCks []*snapshotpb.OperatorCheckpoint
	SRCks []*jobpb.SourceRunnerCheckpointCompleteRequest
}

func (j *Job) OperatorCheckpointComplete(ctx context.Context, req *snapshotpb.OperatorCheckpoint) error {
	j.mu.Lock()
	j.OpCks = append(j.OpCks, req)
	f := j.OnOp
	j.mu.Unlock()
	if f != nil {
		return f(req)
	}
	return nil
}

func (j *Job) OnSourceRunnerCheckpointComplete(ctx context.Context, req *jobpb.SourceRunnerCheckpointCompleteRequest) error {
	j.mu.Lock()
	j.SRCks = append(j.SRCks, req)
	f := j.OnSR
	j.mu.Unlock()
	if f != nil {
		return f(req)
	}
	return nil
}

// OpCk returns the latest acknowledgement of operator id for checkpoint n.
func (j *Job) OpCk(id string, n uint64) *snapshotpb.OperatorCheckpoint {
	j.mu.Lock()
	defer j.mu.Unlock()
	for i := len(j.OpCks) - 1; i >= 0; i-- {
		if j.OpCks[i].OperatorId == id && j.OpCks[i].CheckpointId == n {
			return j.OpCks[i]
		}
	}
	return nil
}

type Sink struct{ OnWrite func([]byte) }

func (s *Sink) Write(b []byte) error {
	if s.OnWrite != nil {
		s.OnWrite(b)
	}
	return nil
}

// ---- operators ----------------------------------------------------------------------------

type Op struct {
	*operator.Operator
	IDv  string
	Done chan struct{}
	Err  error
}

// NewOp starts a real operator (not yet deployed).
func NewOp(id string, job proto.Job, h proto.Handler, batch batching.EventBatcherParams, neighbors func(string, *jobpb.NodeIdentity) proto.Operator) *Op {
	if neighbors == nil {
		neighbors = func(string, *jobpb.NodeIdentity) proto.Operator { return &FakeOp{} }
	}
	o := &Op{IDv: id, Done: make(chan struct{})}
	o.Operator = operator.NewOperator(operator.NewOperatorParams{ID: id, Host: id + "-host", Job: job, UserHandler: h,
		EventBatching: batch, Clock: clocks.NewFrozenClock(), NeighborOperatorFactory: neighbors})
	started := make(chan struct{})
	go func() {
		close(started)
		o.Err = o.Operator.Start(context.Background())
		close(o.Done)
	}()
	<-started
	return o
}

// Deploy puts the operator at index own of ids.
func (o *Op) Deploy(ids []string, srs []string, groups int, dir string, cks []*snapshotpb.OperatorCheckpoint) error {
	nodes := make([]*jobpb.NodeIdentity, len(ids))
	for i, id := range ids {
		nodes[i] = &jobpb.NodeIdentity{Id: id, Host: id + "-host"}
	}
	return o.HandleDeploy(context.Background(), &workerpb.DeployOperatorRequest{Operators: nodes, SourceRunnerIds: srs,
		KeyGroupCount: int32(groups), StorageLocation: dir, Checkpoints: cks}, &Sink{})
}

// Send delivers one event and waits until the operator dealt with it; it retries while the operator starts.
func (o *Op) Send(sr string, ev *workerpb.Event) error {
	return o.HandleEvent(context.Background(), sr, ev)
}

func KeyedEvent(e Ev) *workerpb.Event {
	return &workerpb.Event{Event: &workerpb.Event_KeyedEvent{KeyedEvent: e.Keyed()}}
}

func WatermarkEvent(ns int64) *workerpb.Event {
	return &workerpb.Event{Event: &workerpb.Event_Watermark{Watermark: &workerpb.Watermark{Timestamp: timestamppb.New(time.Unix(0, ns))}}}
}

func BarrierEvent(n uint64) *workerpb.Event {
	return &workerpb.Event{Event: &workerpb.Event_CheckpointBarrier{CheckpointBarrier: &workerpb.CheckpointBarrier{CheckpointId: n}}}
}

// Kill ends the operator without deregistration and waits for it.
func (o *Op) Kill() {
	o.Halt()
	select {
	case <-o.Done:
	case <-time.After(20 * time.Second):
	}
}

// ID and Host make Op a proto.Operator for peers in the same process.
type Peer struct {
	Op   *Op
	From string
	Fail func(ev *workerpb.Event) error
}

func (p *Peer) ID() string   { return p.Op.IDv }
func (p *Peer) Host() string { return p.Op.IDv + "-host" }
func (p *Peer) HandleEventBatch(ctx context.Context, batch []*workerpb.Event) error {
	for _, ev := range batch {
		if p.Fail != nil {
			if err := p.Fail(ev); err != nil {
				return err
			}
		}
		if err := p.Op.HandleEvent(ctx, p.From, ev); err != nil {
			return err
		}
	}
	return nil
}
func (p *Peer) Deploy(ctx context.Context, req *workerpb.DeployOperatorRequest) error {
	return p.Op.HandleDeploy(ctx, req, &Sink{})
}
func (p *Peer) UpdateRetainedCheckpoints(ctx context.Context, ids []uint64) error {
	return p.Op.HandleRemoveCheckpoints(ctx, &workerpb.UpdateRetainedCheckpointsRequest{CheckpointIds: ids})
}
func (p *Peer) NeedsTable(ctx context.Context, uri string) (bool, error) {
	return p.Op.HandleNeedsTable(uri), nil
}

// FakeOp is an operator that only records.
type FakeOp struct {
	IDv     string
	OnBatch func([]*workerpb.Event) error
	Needs   bool
}

func (f *FakeOp) ID() string   { return f.IDv }
func (f *FakeOp) Host() string { return f.IDv + "-host" }
func (f *FakeOp) HandleEventBatch(ctx context.Context, batch []*workerpb.Event) error {
	if f.OnBatch != nil {
		return f.OnBatch(batch)
	}
	return nil
}
func (f *FakeOp) Deploy(context.Context, *workerpb.DeployOperatorRequest) error { return nil }
func (f *FakeOp) UpdateRetainedCheckpoints(context.Context, []uint64) error     { return nil }
func (f *FakeOp) NeedsTable(context.Context, string) (bool, error)              { return f.Needs, nil }

var _ proto.Operator = (*FakeOp)(nil)
var _ proto.Operator = (*Peer)(nil)

// ---- source runners -----------------------------------------------------------------------

type SR struct {
	*sourcerunner.SourceRunner
	Done chan struct{}
	Err  error
}

func NewSR(job proto.Job, h proto.Handler, batch batching.EventBatcherParams, ops proto.OperatorFactory, reader func(*jobconfigpb.Source) connectors.SourceReader) *SR {
	s := &SR{Done: make(chan struct{})}
	s.SourceRunner = sourcerunner.New(sourcerunner.NewParams{Host: "h", UserHandler: h, Job: job, Clock: clocks.NewFrozenClock(),
		OperatorFactory: ops, SourceReaderFactory: reader, EventBatching: batch})
	go func() {
		s.Err = s.SourceRunner.Start(context.Background())
		close(s.Done)
	}()
	return s
}

func (s *SR) DeployTo(ids []string, groups int) error {
	nodes := make([]*jobpb.NodeIdentity, len(ids))
	for i, id := range ids {
		nodes[i] = &jobpb.NodeIdentity{Id: id, Host: id + "-host"}
	}
	return s.HandleDeploy(context.Background(), &workerpb.DeploySourceRunnerRequest{Operators: nodes, KeyGroupCount: int32(groups),
		Sources: []*jobconfigpb.Source{{}}})
}

func (s *SR) Kill() {
	s.Halt()
	select {
	case <-s.Done:
	case <-time.After(20 * time.Second):
	}
}

// Wait polls until f is true or the time is up.
func Wait(d time.Duration, f func() bool) bool {
	end := time.Now().Add(d)
	for !f() {
		if time.Now().After(end) {
			return f()
		}
		time.Sleep(50 * time.Microsecond)
	}
	return true
}
