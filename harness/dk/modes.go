package main

import (
	"fmt"
	"runtime"
	"slices"
	"strings"

	"reduction.dev/reduction/dkv"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/zzverif/simfs"
	"reduction.dev/reduction/zzverif/tr"
)

// ---- C07: reads under every background schedule
func c07() {
	for i := range tr.Pick(420, 3500) {
		r := tr.Rand(int64(i))
		sched := pick(r, "step", "gated", "gated", "par")
		procs(sched)
		fsk := "sim"
		if i%29 == 7 {
			fsk = "mem"
		}
		nk := pick(r, 2, 4, 7, 12)
		ops := 60
		opt := randOpts(r)
		if i%12 == 3 { // many keys: several index blocks per table, several tables per level
			nk, ops = 70, 260
			opt.MemTableSize = pick[uint64](r, 400, 900, 2500)
			opt.TargetFileSize = pick[uint64](r, 300, 700, 1500)
		}
		s := newSim(r, "c07", sched, fsk, nk, nil, opt)
		d := s.open("a", nil, s.simpleOwner())
		if nk == 70 {
			for range 2 {
				for _, k := range s.keys {
					if r.Intn(3) > 0 {
						s.put(d, k, s.val())
					}
				}
			}
		}
		for range ops {
			switch x := r.Intn(20); {
			case x < 7:
				s.put(d, s.anyKey(), s.val())
			case x < 10:
				s.del(d, s.anyKey())
			case x < 13:
				s.get(d, s.anyKey())
			case x < 14:
				s.get(d, s.probe(d))
			case x < 16:
				s.scan(d, s.prefix(d), r.Intn(2) == 0)
			case x < 17 && nk < 70:
				s.scan(d, nil, r.Intn(2) == 0)
			case x == 19 && r.Intn(6) == 0:
				simfs.CollectGarbage()
			}
			s.background()
		}
		s.fullRead(d)
		s.end()
		s.fullRead(d)
		s.abandon()
	}
}

// distinct results of reads repeated while flushes and compactions run in parallel
func c07stress() {
	runtime.GOMAXPROCS(6)
	for i := range tr.Pick(10, 80) {
		r := tr.Rand(int64(77000 + i))
		opt := randOpts(r)
		opt.MemTableSize = pick[uint64](r, 1, 40)
		opt.MaxWALSize = 1 << 20
		opt.L0TableNumCompactionTrigger = pick(r, 2, 4)
		opt.TargetFileSize = pick[uint64](r, 40, 1000)
		s := newSim(r, "c07stress", "par", "sim", 5, nil, opt)
		d := s.open("a", nil, s.simpleOwner())
		for range 60 {
			k := s.anyKey()
			if r.Intn(4) == 0 {
				s.del(d, k)
			} else {
				s.put(d, k, s.val())
			}
			seen := map[string]bool{}
			for range 60 {
				res, p := getRes(d.db, k)
				if p != "" {
					res = p
				}
				seen[res] = true
			}
			for x := range seen {
				t.Ev("Get", tr.M{"db": d.id, "k": tr.Bytes(k), "res": x, "panic": ""})
			}
			if r.Intn(3) == 0 {
				for range 8 {
					s.scan(d, nil, false)
				}
			}
		}
		s.end()
		s.fullRead(d)
		s.abandon()
	}
}

// ---- C08: checkpoints restore to the call's contents
func c08() {
	for i := range tr.Pick(380, 3000) {
		r := tr.Rand(int64(8000000 + i))
		sched := pick(r, "step", "gated", "gated", "par")
		procs(sched)
		fsk := "sim"
		if i%23 == 5 {
			fsk = "mem"
		}
		if i%97 == 9 {
			fsk = "local"
		}
		nk := pick(r, 2, 4, 6, 9)
		opt := randOpts(r)
		if r.Intn(3) == 0 {
			opt.MaxWALSize = 1 << 20
		}
		s := newSim(r, "c08", sched, fsk, nk, nil, opt)
		s.snapP = 0.15
		d := s.open("a", nil, s.simpleOwner())
		overlap := r.Intn(3) == 0 // several checkpoints in flight
		for range 70 {
			if d == nil {
				break
			}
			switch x := r.Intn(24); {
			case x < 9:
				s.put(d, s.anyKey(), s.val())
			case x < 12:
				s.del(d, s.anyKey())
			case x < 15:
				if len(d.pend) == 0 || overlap {
					s.nextCk++
					s.ckpt(d, s.nextCk)
				}
			case x < 17:
				s.finish(d, r.Intn(3) == 0)
			case x < 18:
				if ks := s.kept(); len(ks) > 0 && s.w != nil {
					h := ks[r.Intn(len(ks))]
					s.peek(s.w, []*handle{h}, h.own)
				}
			case x < 19:
				s.takeSnaps()
			case x < 20: // restore from a retained checkpoint and go on there
				ks := s.kept()
				if len(ks) == 0 || r.Intn(2) == 0 {
					break
				}
				h := ks[len(ks)-1]
				if r.Intn(4) == 0 {
					h = ks[r.Intn(len(ks))]
				}
				d = s.reopen(d, h, fsk)
			case x < 21:
				if r.Intn(3) == 0 {
					s.scan(d, nil, false)
				} else {
					s.get(d, s.anyKey())
				}
			case x < 22 && r.Intn(4) == 0: // retention
				if ids := s.ids(d); len(ids) > 1 {
					s.retain(ids[r.Intn(len(ids)-1)+1:], []*dbx{d})
				}
			}
			if d != nil {
				s.background()
			}
		}
		if d != nil {
			s.finish(d, true)
			s.takeSnaps()
			if s.w != nil {
				for _, h := range s.kept() {
					s.peek(s.w, []*handle{h}, h.own)
				}
			}
			s.end()
			s.fullRead(d)
			if ks := s.kept(); len(ks) > 0 {
				if s.w != nil {
					for _, h := range ks {
						s.peek(s.w, []*handle{h}, h.own)
					}
				}
				if d = s.reopen(d, ks[len(ks)-1], fsk); d != nil {
					s.fullRead(d)
					s.end()
				}
			}
		}
		s.abandon()
	}
}

// ids of completed retained checkpoints d knows
func (s *sim) ids(d *dbx) (r []uint64) {
	for _, h := range s.kept() {
		if slices.Contains(d.cks, h.ck) {
			r = append(r, h.ck)
		}
	}
	return
}

// reopen abandons d and opens a database from h: after a crash in the same directory of what storage
// holds, or (redeployment) in a fresh directory while the old instance may still be finishing work.
func (s *sim) reopen(d *dbx, h *handle, fsk string) *dbx {
	s.live = slices.DeleteFunc(s.live, func(x *dbx) bool { return x == d })
	dir := d.dir
	if fsk == "sim" && s.r.Intn(2) == 0 {
		s.mu.Lock()
		old := s.w
		s.snaps = nil
		s.w = old.Snapshot()
		s.mu.Unlock()
		old.OnOp = nil
		old.OpenGates()
		simfs.Settle()
		if s.gated {
			s.w.Gate(s.gate())
		}
		s.hook(s.w)
	} else {
		s.nextDir++
		dir = strings.TrimRight(d.dir, "0123456789") + string(rune('0'+s.nextDir%10)) + string(rune('0'+s.nextDir/10))
		if !s.gated && fsk != "sim" {
			d.db.WaitOnTasks()
		}
	}
	d.pend = nil
	// Going back to an older checkpoint abandons the newer ones (checkpoint ids only grow); an instance
	// started in the old instance's directory takes over only the checkpoint it was given.
	keep := []int{}
	s.mu.Lock()
	for _, x := range s.handles {
		if s.retained[x.id] && (x == h || x.ck < h.ck && dir != d.dir) {
			keep = append(keep, x.id)
		} else {
			delete(s.retained, x.id)
		}
	}
	s.mu.Unlock()
	s.gone = []int{} // whatever the old instance failed to remove, the new one knows nothing of
	t.Ev("Drop", tr.M{"keep": keep})
	return s.open(dir, []*handle{h}, s.simpleOwner())
}

// ---- C09: files stay while needed
func c09() {
	for i := range tr.Pick(240, 2000) {
		r := tr.Rand(int64(9000000 + i))
		sched := pick(r, "step", "gated", "par")
		procs(sched)
		opt := randOpts(r)
		if r.Intn(2) == 0 {
			opt.MemTableSize = 1
		}
		s := newSim(r, "c09", sched, "sim", pick(r, 2, 4), nil, opt)
		s.w.DeleteMissingFails = r.Intn(2) == 0
		s.faults = r.Intn(4) == 0
		if s.faults {
			n := 0
			s.w.Fail(func(op, p string) error {
				if strings.HasPrefix(p, "/peek") {
					return nil
				}
				n++
				if n%5 == 2 {
					return simfs.ErrInjected
				}
				return nil
			})
		}
		d := s.open("a", nil, s.simpleOwner())
		for range 55 {
			if d == nil {
				break
			}
			switch x := r.Intn(22); {
			case x < 8:
				s.put(d, s.anyKey(), s.val())
			case x < 10:
				s.del(d, s.anyKey())
			case x < 12:
				if len(d.pend) == 0 {
					s.nextCk++
					s.ckpt(d, s.nextCk)
				}
			case x < 15:
				for _, h := range s.finish(d, r.Intn(2) == 0) {
					s.refs(h)
				}
			case x < 17:
				if ids := s.ids(d); len(ids) > 1 {
					s.retain(ids[r.Intn(len(ids)-1)+1:], []*dbx{d})
				}
			case x < 19:
				simfs.CollectGarbage()
				s.scan(d, nil, false)
			case x < 20: // redeployment in the same process: the old instance becomes garbage
				if ks := s.kept(); len(ks) > 0 && r.Intn(2) == 0 {
					s.finish(d, true)
					ks = s.kept()
					d = s.reopen(d, ks[len(ks)-1], "sim")
				}
			case x < 21:
				if ks := s.kept(); len(ks) > 0 {
					h := ks[r.Intn(len(ks))]
					s.peek(s.w, []*handle{h}, h.own)
				}
			}
			if d != nil {
				s.background()
			}
		}
		if d != nil {
			for _, h := range s.finish(d, true) {
				s.refs(h)
			}
			s.end()
			simfs.CollectGarbage()
			for _, h := range s.kept() {
				s.peek(s.w, []*handle{h}, h.own)
			}
			s.scan(d, nil, false)
			if ids := s.ids(d); len(ids) > 1 {
				s.retain(ids[len(ids)-1:], []*dbx{d})
				simfs.CollectGarbage()
				for _, h := range s.kept() {
					s.peek(s.w, []*handle{h}, h.own)
				}
				s.scan(d, nil, false)
			}
		}
		s.abandon()
		runtime.KeepAlive(d)
	}
}

// ---- several instances sharing tables over rescales (C06, C09)
func multi() {
	for i := range tr.Pick(220, 1800) {
		r := tr.Rand(int64(6000000 + i))
		sched := pick(r, "step", "gated", "par")
		procs(sched)
		opt := randOpts(r)
		churn := r.Intn(3) == 0 // instances replace their tables (or don't) between checkpoints
		if churn {
			opt.MemTableSize, opt.L0TableNumCompactionTrigger = pick[uint64](r, 40, 150), 1
		}
		ng := pick(r, 2, 3, 5, 8)
		base := pick(r, 0, 0, 0x7e, 0x1fe) // group bytes below and above 0x80
		groups := []int{}
		for g := range ng {
			groups = append(groups, base+g)
		}
		s := newSim(r, "multi", sched, "sim", pick(r, 4, 8, 12), groups, opt)
		gen := s.deploy(splitRange(r, base, ng, 1+r.Intn(3)), nil)
		if r.Intn(4) == 0 {
			s.w.DeleteMissingFails = true
		}
		for g := range 1 + r.Intn(4) {
			if gen == nil {
				break
			}
			// phases of work, in which some instances may be idle, each ended by a job checkpoint
			ok := true
			for ph := range 1 + r.Intn(pick(r, 1, 2, 5)) {
				busy := gen
				if r.Intn(2) == 0 {
					busy = nil
					for _, d := range gen {
						if r.Intn(2) == 0 {
							busy = append(busy, d)
						}
					}
				}
				if churn {
					for _, d := range busy {
						for range 10 + r.Intn(20) {
							if k := s.ownedKey(d); k != nil {
								s.put(d, k, s.val())
								s.background()
							}
						}
					}
					s.settle(busy)
				} else if len(busy) > 0 {
					s.work(busy, 12+r.Intn(30))
				}
				if ok = s.jobCheckpoint(gen); !ok {
					break
				}
				if ph+g > 0 && r.Intn(2) == 0 {
					s.work(gen, r.Intn(8))
					ids := []uint64{s.nextCk}
					for k := uint64(1); k < s.nextCk && r.Intn(2) == 0; k++ {
						ids = append(ids, s.nextCk-k)
					}
					s.retain(ids, gen)
					s.work(gen, r.Intn(10))
					if r.Intn(2) == 0 {
						simfs.CollectGarbage()
						s.work(gen, 2)
					}
				}
			}
			if !ok {
				break
			}
			s.work(gen, r.Intn(15))
			// rescale: from the newest completed checkpoint
			var hs []*handle
			for _, h := range s.kept() {
				if h.ck == s.nextCk {
					hs = append(hs, h)
				}
			}
			r.Shuffle(len(hs), func(a, b int) { hs[a], hs[b] = hs[b], hs[a] })
			s.live = nil
			gen = s.deploy(splitRange(r, base, ng, 1+r.Intn(4)), hs)
			if gen == nil {
				break
			}
			for _, d := range gen {
				s.fullRead(d)
			}
			if r.Intn(2) == 0 {
				simfs.CollectGarbage()
			}
		}
		if gen != nil {
			s.work(gen, 10)
			s.end()
			for _, d := range gen {
				s.fullRead(d)
			}
			simfs.CollectGarbage()
			for _, h := range s.kept() {
				s.peek(s.w, []*handle{h}, h.own)
			}
			for _, d := range gen {
				s.fullRead(d)
			}
		}
		s.abandon()
		runtime.KeepAlive(gen)
	}
}

type rng struct{ lo, hi int }

// shared: instances restored from the same tables replace them at different times while several
// checkpoints are retained and garbage is collected.
func shared() {
	for i := range tr.Pick(240, 2000) {
		r := tr.Rand(int64(7000000 + i))
		sched := pick(r, "step", "par")
		procs(sched)
		opt := randOpts(r)
		opt.MemTableSize, opt.L0TableNumCompactionTrigger = pick[uint64](r, 1, 30, 45, 60), 1
		opt.TargetFileSize = pick[uint64](r, 60, 400, 1<<20)
		opt.MaxWALSize = 1 << 20
		ng := pick(r, 2, 3, 4)
		groups := []int{}
		for g := range ng {
			groups = append(groups, g)
		}
		s := newSim(r, "multi", sched, "sim", pick(r, 4, 8), groups, opt)
		churn := func(gen []*dbx, first []int, ph int) {
			for i, d := range gen {
				if ph < first[i] || (ph > first[i] && r.Intn(3) > 0) {
					continue
				}
				for range 8 + r.Intn(12) {
					if k := s.ownedKey(d); k != nil {
						s.put(d, k, s.val())
					}
				}
			}
			s.settle(gen)
		}
		gen := s.deploy(splitRange(r, 0, ng, 1+r.Intn(2)), nil)
		for _, d := range gen {
			for range 20 {
				if k := s.ownedKey(d); k != nil {
					s.put(d, k, s.val())
				}
			}
		}
		s.settle(gen)
		for g := range 1 + r.Intn(2) {
			if !s.jobCheckpoint(gen) {
				gen = nil
				break
			}
			var hs []*handle
			for _, h := range s.kept() {
				if h.ck == s.nextCk {
					hs = append(hs, h)
				}
			}
			s.live = nil
			if gen = s.deploy(splitRange(r, 0, ng, pick(r, 2, 2, 3, ng)), hs); gen == nil {
				break
			}
			ok := true
			first := []int{} // the phase in which an instance starts to replace its tables
			for range gen {
				first = append(first, r.Intn(3))
			}
			for ph := range 2 + r.Intn(3) {
				churn(gen, first, ph)
				if ok = s.jobCheckpoint(gen); !ok {
					break
				}
				if ph > 0 && r.Intn(6) > 0 {
					ids := []uint64{s.nextCk, s.nextCk - 1}
					if r.Intn(3) == 0 {
						ids = ids[:1]
					}
					for _, d := range gen {
						if r.Intn(8) == 0 {
							d.own.fault.Store(int32(s.r.Intn(3)))
						}
					}
					s.retain(ids, gen)
					simfs.CollectGarbage()
					if r.Intn(2) == 0 {
						churn(gen, first, ph)
						simfs.CollectGarbage()
					}
					for _, h := range s.kept() {
						s.peek(s.w, []*handle{h}, h.own)
					}
				}
			}
			if !ok {
				gen = nil
				break
			}
			for _, d := range gen {
				s.fullRead(d)
			}
			_ = g
		}
		if gen != nil {
			s.end()
			simfs.CollectGarbage()
			for _, h := range s.kept() {
				s.peek(s.w, []*handle{h}, h.own)
			}
			for _, d := range gen {
				s.fullRead(d)
			}
		}
		s.abandon()
		runtime.KeepAlive(gen)
	}
}

func splitRange(r interface{ Intn(int) int }, base, n, parts int) (out []rng) {
	parts = min(parts, n)
	size, rest := n/parts, n%parts
	lo := base
	for i := range parts {
		hi := lo + size
		if i < rest {
			hi++
		}
		out = append(out, rng{lo, hi})
		lo = hi
	}
	return
}

func (s *sim) deploy(rs []rng, from []*handle) []*dbx {
	var gen []*dbx
	s.nextDir++
	for i, x := range rs {
		own := &owner{s: s, lo: x.lo, hi: x.hi}
		own.peers = func() (ps []*dbx) {
			for _, d := range gen {
				if d.own != own {
					ps = append(ps, d)
				}
			}
			return
		}
		var hs []*handle
		for _, h := range from {
			if h.own.lo < x.hi && x.lo < h.own.hi {
				hs = append(hs, h)
			}
		}
		d := s.open(string(rune('a'+s.nextDir))+string(rune('0'+i)), hs, own)
		if d == nil {
			return nil
		}
		gen = append(gen, d)
	}
	return gen
}

func (s *sim) work(gen []*dbx, n int) {
	for range n {
		d := gen[s.r.Intn(len(gen))]
		k := s.ownedKey(d)
		if k == nil {
			continue
		}
		switch x := s.r.Intn(16); {
		case x < 7:
			s.put(d, k, s.val())
		case x < 10:
			s.del(d, k)
		case x < 12:
			s.get(d, k)
		case x < 13:
			s.scan(d, s.prefix(d), false)
		case x < 14 && s.r.Intn(3) == 0:
			d.own.fault.Store(int32(s.r.Intn(4)))
			simfs.CollectGarbage()
		}
		s.background()
	}
}

// settle lets the background work of some instances finish.
func (s *sim) settle(gen []*dbx) {
	if s.gated {
		return
	}
	for _, d := range gen {
		var err error
		p := s.fg(func() { err = d.db.WaitOnTasks() })
		if p != "" || (err != nil && !s.faults) {
			t.Ev("Err", tr.M{"what": fmt.Sprint("background work failed: ", p, err)})
		}
	}
}

func (s *sim) jobCheckpoint(gen []*dbx) bool {
	s.nextCk++
	order := s.r.Perm(len(gen))
	for _, i := range order {
		if s.ckpt(gen[i], s.nextCk) == nil {
			return false
		}
		if s.r.Intn(2) == 0 {
			s.work(gen, s.r.Intn(4))
		}
	}
	for _, i := range order {
		got := s.finish(gen[i], true)
		if len(got) != 1 {
			return false
		}
		s.refs(got[0])
	}
	return true
}

var _ = dkv.DBOptions{}
var _ storage.FileSystem
