// Driver for C17 and C18: SST tables, write-ahead logs and compaction steps of the real code.
package main

import (
	"bytes"
	"encoding/binary"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"iter"
	"math/rand"
	"os"
	"slices"

	"reduction.dev/reduction/dkv/kv"
	"reduction.dev/reduction/dkv/sst"
	"reduction.dev/reduction/dkv/storage"
	"reduction.dev/reduction/dkv/wal"
	"reduction.dev/reduction/zzverif/tr"
)

var t *tr.T

type ent struct {
	k, v []byte
	s    uint64
	d    bool
}

func (e ent) Key() []byte    { return e.k }
func (e ent) Value() []byte  { return e.v }
func (e ent) IsDelete() bool { return e.d }
func (e ent) SeqNum() uint64 { return e.s }

var base uint64 // sequence numbers are logged relative to it

func rel(s uint64) int {
	d := int64(s - base)
	if d < 0 || d > 1<<30 {
		return -1
	}
	return int(d)
}

func what(e kv.Entry) string {
	if e.IsDelete() {
		return "D"
	}
	return "P" + hex.EncodeToString(e.Value())
}

func row(e kv.Entry) []any { return []any{tr.Bytes(e.Key()), rel(e.SeqNum()), what(e)} }

func rows(s iter.Seq[kv.Entry]) []any {
	r := []any{}
	for e := range s {
		r = append(r, row(e))
	}
	return r
}

func pick[T any](r *rand.Rand, xs ...T) T { return xs[r.Intn(len(xs))] }

func fsys(r *rand.Rand) storage.FileSystem {
	if r.Intn(8) == 0 {
		dir, err := os.MkdirTemp(os.Getenv("SCRATCH"), "fs")
		if err != nil {
			panic(err)
		}
		return storage.NewLocalFilesystem(dir)
	}
	return storage.NewMemoryFilesystem()
}

// adversarial keys: prefixes of one another, empty, bytes that are not UTF-8
func randKey(r *rand.Rand) []byte {
	n := pick(r, 0, 1, 1, 2, 2, 3, 3, 4, 9)
	k := make([]byte, n)
	for i := range k {
		k[i] = pick(r, byte(0), 1, 'a', 'b', 0x7f, 0x80, 0xc3, 0xff)
	}
	return k
}

func randVal(r *rand.Rand) []byte {
	switch r.Intn(8) {
	case 0:
		return []byte{}
	case 1:
		return bytes.Repeat([]byte{byte(r.Intn(256))}, 20+r.Intn(60))
	}
	v := make([]byte, r.Intn(9))
	r.Read(v)
	return v
}

func randRun(r *rand.Rand, n int, seq func() uint64) []ent {
	m := map[string]bool{}
	var es []ent
	long := r.Intn(4) == 0
	for len(es) < n {
		k := randKey(r)
		if long || n > 40 {
			k = append(k, byte(r.Intn(256)), byte(r.Intn(3)))
		}
		if m[string(k)] {
			if len(m) > 300 {
				break
			}
			continue
		}
		m[string(k)] = true
		e := ent{k: k, s: seq()}
		if r.Intn(4) == 0 {
			e.d = true
		} else {
			e.v = randVal(r)
		}
		es = append(es, e)
	}
	slices.SortFunc(es, func(a, b ent) int { return bytes.Compare(a.k, b.k) })
	return es
}

func seqOf(es []ent) iter.Seq[kv.Entry] {
	return func(yield func(kv.Entry) bool) {
		for _, e := range es {
			if !yield(e) {
				return
			}
		}
	}
}

// reopen goes through the descriptor as it is stored in checkpoint files
func reopen(fs storage.FileSystem, tab *sst.Table) *sst.Table {
	b, err := json.Marshal(tab.Document())
	if err != nil {
		panic(err)
	}
	var d sst.TableDocument
	if err := json.Unmarshal(b, &d); err != nil {
		panic(err)
	}
	return sst.NewTableFromDocument(fs, nobody{}, d)
}

type nobody struct{}

func (nobody) OwnsKey([]byte) bool                                       { return true }
func (nobody) ExclusivelyOwnsTable(string, []byte, []byte) (bool, error) { return false, nil }

func get(tab *sst.Table, k []byte) (s string) {
	if p := tr.Guard(func() {
		e, err := tab.Get(k)
		switch {
		case err == kv.ErrNotFound:
			s = "-"
		case err != nil:
			s = "error: " + err.Error()
		case !bytes.Equal(e.Key(), k):
			s = fmt.Sprintf("other key %x", e.Key())
		default:
			s = fmt.Sprint(rel(e.SeqNum()), ":", what(e))
		}
	}); p != "" {
		s = p
	}
	return
}

func scan(tab *sst.Table, p []byte) (out []any, e string) {
	out = []any{}
	e = tr.Guard(func() {
		var err error
		out = rows(tab.ScanPrefix(p, &err))
		if err != nil {
			panic(err)
		}
	})
	return
}

func tables() {
	for i := range tr.Pick(420, 6000) {
		r := tr.Rand(int64(17000 + i))
		base = pick(r, uint64(0), 0, 1<<32, 1<<40)
		fs := fsys(r)
		t.Begin(tr.M{"mode": "tables", "fs": fmt.Sprintf("%T", fs)})
		w := sst.NewTableWriter(fs, pick(r, int64(0), 7))
		s := base
		next := func() uint64 { s += uint64(1 + r.Intn(3)); return s }
		id := 0
		for range 1 + r.Intn(3) {
			n := pick(r, 0, 1, 2, 3, 5, 15, 16, 17, 31, 32, 33, 40, 64)
			es := randRun(r, n, next)
			if r.Intn(2) == 0 { // sequence numbers in no relation to the key order
				for j := range es {
					k := r.Intn(len(es))
					es[j].s, es[k].s = es[k].s, es[j].s
				}
			}
			whole := len(es) > 0 && r.Intn(2) == 0
			var got []*sst.Table
			p := tr.Guard(func() {
				var err error
				if whole {
					var x *sst.Table
					x, err = w.Write(seqOf(es))
					got = []*sst.Table{x}
				} else {
					got, err = w.WriteRun(seqOf(es), pick(r, uint64(1), 20, 40, 41, 80, 200, 500, 1<<20))
				}
				if err != nil {
					panic(err)
				}
			})
			ts, tabs, re := []any{}, map[int]*sst.Table{}, map[int]*sst.Table{}
			for _, x := range got {
				id++
				tabs[id] = x
				re[id] = reopen(fs, x)
				d := re[id].Document()
				out, e := scan(re[id], nil)
				if p == "" {
					p = e
				}
				if re[id].Size() != x.Size() || re[id].EntriesSize() != x.EntriesSize() || re[id].Name() != x.Name() || re[id].Age() != x.Age() {
					p = "the re-opened table differs"
				}
				ts = append(ts, tr.M{"id": id, "es": out, "lo": tr.Bytes(d.StartKey), "hi": tr.Bytes(d.EndKey), "slo": rel(d.StartSeqNum), "shi": rel(d.EndSeqNum)})
			}
			t.Ev("Run", tr.M{"run": rows(seqOf(es)), "whole": whole, "tables": ts, "panic": p})
			if p != "" {
				break
			}
			for id := range tabs {
				gs := []any{}
				probe := [][]byte{{}, {0xff, 0xff, 0xff}}
				for _, e := range es {
					probe = append(probe, e.k)
					if r.Intn(3) == 0 {
						probe = append(probe, append(slices.Clone(e.k), 0))
						if len(e.k) > 0 {
							probe = append(probe, e.k[:len(e.k)-1])
						}
					}
				}
				for range 4 {
					probe = append(probe, randKey(r))
				}
				for _, k := range probe {
					gs = append(gs, []any{tr.Bytes(k), get(tabs[id], k), get(re[id], k)})
				}
				t.Ev("Gets", tr.M{"id": id, "gets": gs, "panic": ""})
				ps := [][]byte{nil, randKey(r)}
				if len(es) > 0 {
					k := es[r.Intn(len(es))].k
					ps = append(ps, k[:r.Intn(len(k)+1)])
				}
				for _, p := range ps {
					a, e1 := scan(tabs[id], p)
					b, e2 := scan(re[id], p)
					t.Ev("Scan", tr.M{"id": id, "p": tr.Bytes(p), "out": a, "out2": b, "panic": e1 + e2})
				}
			}
		}
	}
	// large tables: the bloom filter answers "maybe" for absent keys, lookups go through the whole index
	for i := range tr.Pick(2, 8) {
		r := tr.Rand(int64(18000 + i))
		base = 0
		fs := storage.NewMemoryFilesystem()
		t.Begin(tr.M{"mode": "large", "fs": "memory"})
		n, b0, step := tr.Pick(20000, 60000), pick(r, 1000, 70000), pick(r, 2, 3, 7)
		k4 := func(x int) []byte { return binary.BigEndian.AppendUint32(nil, uint32(x)) }
		var tab, re *sst.Table
		p := tr.Guard(func() {
			var err error
			tab, err = sst.NewTableWriter(fs, 0).Write(func(yield func(kv.Entry) bool) {
				for j := 1; j <= n; j++ {
					if !yield(ent{k: k4(b0 + j*step), v: k4(j), s: uint64(j)}) {
						return
					}
				}
			})
			if err != nil {
				panic(err)
			}
			re = reopen(fs, tab)
		})
		t.Ev("Gen", tr.M{"n": n, "base": b0, "step": step, "panic": p})
		if p != "" {
			continue
		}
		look := func(tab *sst.Table, x int) (res int) {
			if p := tr.Guard(func() {
				e, err := tab.Get(k4(x))
				switch {
				case err == kv.ErrNotFound:
					res = -1
				case err != nil:
					res = -2
				case !bytes.Equal(e.Key(), k4(x)) || !bytes.Equal(e.Value(), k4(int(e.SeqNum()))) || e.IsDelete():
					res = -3
				default:
					res = int(e.SeqNum())
				}
			}); p != "" {
				res = -4
			}
			return
		}
		for range 12 {
			gs := []any{}
			for range 60 {
				x := b0 + r.Intn((n+2)*step)
				switch r.Intn(6) {
				case 0:
					x = b0 - r.Intn(b0)
				case 1:
					x = b0 + (n+1)*step + r.Intn(1000)
				case 2:
					x = b0 + (1+16*r.Intn(n/16))*step - r.Intn(3)
				}
				gs = append(gs, []any{x, look(tab, x), look(re, x)})
			}
			t.Ev("GenGets", tr.M{"gets": gs, "panic": ""})
		}
		for range 4 {
			x := b0 + r.Intn(n*step)
			pl := pick(r, 2, 3)
			pre := k4(x)[:pl]
			from := x >> (8 * (4 - pl)) << (8 * (4 - pl))
			to := from + 1<<(8*(4-pl))
			count, first, last := 0, 0, 0
			p := tr.Guard(func() {
				var err error
				for e := range re.ScanPrefix(pre, &err) {
					if count == 0 {
						first = int(e.SeqNum())
					} else if int(e.SeqNum()) != last+1 {
						panic("gap in scan")
					}
					last = int(e.SeqNum())
					count++
				}
				if err != nil {
					panic(err)
				}
			})
			t.Ev("GenScan", tr.M{"from": from, "to": to, "count": count, "first": first, "last": last, "panic": p})
		}
	}
}

func wals() {
	for i := range tr.Pick(500, 8000) {
		r := tr.Rand(int64(27000 + i))
		base = pick(r, uint64(0), 0, 1<<33)
		fs := fsys(r)
		first := base + uint64(pick(r, 0, 0, 5)) // a restored database goes on above its tables
		t.Begin(tr.M{"mode": "wal", "first": rel(first)})
		w := wal.NewWriter(fs, pick(r, 0, 3), pick(r, uint64(1), 60, 1<<20))
		seq, flushed, n := first, first, 0
		type saved struct {
			w             *wal.Writer
			n             int
			flushed, last uint64
			done          bool
		}
		var old []*saved
		save := func(x *saved) {
			p := tr.Guard(func() {
				if err := x.w.Save(); err != nil {
					panic(err)
				}
			})
			x.done = p == ""
			t.Ev("WSave", tr.M{"panic": p})
		}
		read := func(x *saved, after uint64) {
			out := []any{}
			p := tr.Guard(func() {
				h := x.w.Handle(after)
				// as restored from the descriptor
				b, err := json.Marshal(h.Document())
				if err != nil {
					panic(err)
				}
				var d wal.HandleDocument
				if err := json.Unmarshal(b, &d); err != nil {
					panic(err)
				}
				for e, err := range wal.NewReader(fs, wal.NewHandle(fs, d)).All() {
					if err != nil {
						panic(err)
					}
					out = append(out, row(e))
				}
			})
			t.Ev("WRead", tr.M{"n": x.n, "after": rel(after), "out": out, "panic": p})
		}
		for range 10 + r.Intn(30) {
			switch x := r.Intn(14); {
			case x < 7:
				seq++
				k, v := randKey(r), randVal(r)
				if r.Intn(3) == 0 {
					p := tr.Guard(func() { w.Delete(k, seq) })
					t.Ev("WApp", tr.M{"k": tr.Bytes(k), "s": rel(seq), "w": "D", "panic": p})
				} else {
					p := tr.Guard(func() { w.Put(k, v, seq) })
					t.Ev("WApp", tr.M{"k": tr.Bytes(k), "s": rel(seq), "w": "P" + hex.EncodeToString(v), "panic": p})
				}
				n++
			case x < 9:
				t.Ev("WCut", tr.M{"panic": tr.Guard(w.Cut)})
			case x < 11: // what is known to be in tables only grows
				flushed += uint64(r.Intn(int(seq-flushed) + 1))
				f := flushed
				t.Ev("WTrunc", tr.M{"s": rel(f), "panic": tr.Guard(func() { w.Truncate(f) })})
			case x < 13:
				s := &saved{w: w, n: n, flushed: flushed, last: seq}
				var nw *wal.Writer
				p := tr.Guard(func() { nw = w.Rotate(fs) })
				t.Ev("WCut", tr.M{"panic": p})
				if p != "" {
					return
				}
				w = nw
				old = append(old, s)
				if r.Intn(2) == 0 { // saved at once or after later operations
					save(s)
				}
			default:
				for _, s := range old {
					if !s.done && r.Intn(2) == 0 {
						save(s)
					}
				}
			}
		}
		for _, s := range old {
			if !s.done {
				save(s)
			}
			read(s, s.flushed)
			if s.last > s.flushed {
				read(s, s.flushed+uint64(r.Intn(int(s.last-s.flushed)+1)))
				read(s, s.last)
			}
		}
	}
}

// ---------------------------------------------------------------- compaction
func dumpTable(x *sst.Table) tr.M {
	d := x.Document()
	es, e := scan(x, nil)
	if e != "" {
		panic(e)
	}
	return tr.M{"name": x.Name(), "es": es, "lo": tr.Bytes(d.StartKey), "hi": tr.Bytes(d.EndKey), "slo": rel(d.StartSeqNum), "shi": rel(d.EndSeqNum), "size": int(x.Size())}
}

func dump(ll *sst.LevelList) (lv, sizes []any) {
	lv, sizes = []any{}, []any{}
	for l := range ll.DescendLevels() {
		ts := []any{}
		for x := range l.AllTables() {
			ts = append(ts, dumpTable(x))
		}
		lv = append(lv, ts)
		sizes = append(sizes, int(l.ByteSize))
	}
	return
}

func logLL(ev string, ll *sst.LevelList, extra tr.M, p string) {
	m := tr.M{"levels": []any{}, "sizes": []any{}, "latest": 0, "panic": p}
	if p == "" {
		m["panic"] = tr.Guard(func() {
			m["levels"], m["sizes"] = dump(ll)
			m["latest"] = rel(ll.LatestSeqNum)
		})
	}
	for k, v := range extra {
		m[k] = v
	}
	t.Ev(ev, m)
}

func observe(r *rand.Rand, ll *sst.LevelList, keys [][]byte) {
	gets, scans := []any{}, []any{}
	p := tr.Guard(func() {
		for _, k := range keys {
			e, err := ll.Get(k)
			res := "-"
			switch {
			case err == kv.ErrNotFound:
			case err != nil:
				res = "error: " + err.Error()
			case !e.IsDelete():
				res = what(e)
			}
			gets = append(gets, []any{tr.Bytes(k), res})
		}
		for _, p := range [][]byte{nil, keys[r.Intn(len(keys))][:1]} {
			var err error
			out := []any{}
			for e := range ll.ScanPrefix(p, &err) {
				out = append(out, []any{tr.Bytes(e.Key()), what(e)})
			}
			if err != nil {
				panic(err)
			}
			scans = append(scans, []any{tr.Bytes(p), out})
		}
	})
	t.Ev("Obs", tr.M{"gets": gets, "scans": scans, "panic": p})
}

func compact() {
	for i := range tr.Pick(520, 7000) {
		r := tr.Rand(int64(37000 + i))
		base = pick(r, uint64(0), 1<<33)
		fs := storage.NewMemoryFilesystem()
		nlev := pick(r, 2, 3, 3, 4, 6)
		nk := pick(r, 2, 4, 8, 12)
		keys := [][]byte{}
		for j := range nk {
			k := []byte{byte(j / 4), byte(pick(r, 0, 0x41, 0x80, 0xff)), byte(j)}
			keys = append(keys, k)
		}
		slices.SortFunc(keys, bytes.Compare)
		target := pick(r, 1, 40, 100, 400, 1<<20)
		w := sst.NewTableWriter(fs, 0)
		trigger := pick(r, 1, 1, 2, 3, 5)
		samp := pick(r, 0, 1, 20, 50, 100, 300, 100000)
		c := &sst.Compactor{
			TableWriter: w, L0RunNumCompactionTrigger: trigger, MaxSizeAmplificationPercent: samp,
			SmallestLevelSize: pick(r, int64(0), 1, 5000, 9000, 40000), LevelSizeMultiplier: 10, TargetTableSize: int64(target),
		}
		t.Begin(tr.M{"mode": "compact", "nlev": nlev, "trigger": trigger, "samp": samp, "target": target})
		seq := base
		mk := func(es []ent) *sst.Table {
			slices.SortFunc(es, func(a, b ent) int { return bytes.Compare(a.k, b.k) })
			x, err := w.Write(seqOf(es))
			if err != nil {
				panic(err)
			}
			return x
		}
		val := func(k []byte) ent {
			seq++
			e := ent{k: k, s: seq}
			if r.Intn(3) == 0 {
				e.d = true
			} else {
				e.v = append([]byte{byte(seq - base), byte((seq - base) >> 8)}, bytes.Repeat([]byte{'x'}, r.Intn(pick(r, 1, 60)))...)
			}
			return e
		}
		// a valid layout, built from the oldest data at the bottom to the newest
		lt := make([][]*sst.Table, nlev)
		if r.Intn(3) > 0 {
			for l := nlev - 1; l >= 1; l-- {
				if r.Intn(4) == 0 {
					continue
				}
				var es []ent
				for _, k := range keys {
					if r.Intn(2) == 0 {
						es = append(es, val(k))
					}
				}
				// newer keys anywhere in the level
				for j := range es {
					k := r.Intn(len(es))
					es[j].s, es[k].s = es[k].s, es[j].s
				}
				for len(es) > 0 {
					n := 1 + r.Intn(len(es))
					lt[l] = append(lt[l], mk(slices.Clone(es[:n])))
					es = es[n:]
				}
			}
		}
		ll := sst.NewLevelListOfTables(lt)
		// tables of level 0: one after the other, or merged from two instances that owned different
		// keys and counted their sequence numbers independently
		var pend [][]ent
		two, cut := r.Intn(3) == 0, r.Intn(nk)
		cnt := [2]uint64{seq, seq}
		for range r.Intn(6) {
			var es []ent
			h := r.Intn(2)
			if two {
				seq = cnt[h]
			}
			for j, k := range keys {
				if r.Intn(3) == 0 && (!two || (j < cut) == (h == 0)) {
					es = append(es, val(k))
				}
			}
			if two {
				cnt[h] = seq
			}
			if len(es) > 0 {
				pend = append(pend, es)
			}
		}
		if two {
			seq = max(cnt[0], cnt[1])
			r.Shuffle(len(pend), func(a, b int) { pend[a], pend[b] = pend[b], pend[a] })
		}
		for _, es := range pend {
			cs := &sst.ChangeSet{}
			cs.AddTables(0, mk(es))
			ll = ll.NewWithChangeSet(cs)
		}
		logLL("Layout", ll, nil, "")
		flush := func() {
			var es []ent
			for _, k := range keys {
				if r.Intn(3) == 0 {
					es = append(es, val(k))
				}
			}
			if len(es) == 0 {
				es = append(es, val(keys[r.Intn(nk)]))
			}
			x := mk(es)
			cs := &sst.ChangeSet{}
			cs.AddTables(0, x)
			p := tr.Guard(func() { ll = ll.NewWithChangeSet(cs) })
			logLL("Flush", ll, tr.M{"table": dumpTable(x)}, p)
		}
		for range 25 {
			var cs *sst.ChangeSet
			var err error
			p := tr.Guard(func() { cs, err = c.Compact(ll) })
			if err != nil {
				p = "error: " + err.Error()
			}
			if p != "" {
				logLL("Step", ll, nil, p)
				break
			}
			for r.Intn(3) == 0 { // flushes between the computation of a step and its application
				flush()
			}
			if cs == nil {
				if r.Intn(3) == 0 {
					break
				}
				flush()
				continue
			}
			p = tr.Guard(func() { ll = ll.NewWithChangeSet(cs) })
			logLL("Step", ll, nil, p)
			observe(r, ll, keys)
		}
		observe(r, ll, keys)
	}
}

func main() {
	t = tr.New()
	switch os.Args[1] {
	case "tables":
		tables()
	case "wal":
		wals()
	case "compact":
		compact()
	}
}
