// Driver for C19: runs operation sequences on the real structures and records results.
package main

import (
	"cmp"
	"fmt"
	"iter"
	"math/rand"
	"slices"
	"strconv"

	"reduction.dev/reduction/dkv/mergesort"
	"reduction.dev/reduction/dkv/ziptree"
	"reduction.dev/reduction/util/ds"
	"reduction.dev/reduction/util/iteru"
	"reduction.dev/reduction/util/sliceu"
	"reduction.dev/reduction/zzverif/tr"
)

var t *tr.T

func begin(kind string, max int, script string) {
	t.Begin(tr.M{"kind": kind, "max": max, "script": script})
}

// adversarial byte strings: prefixes of one another, empty, zero and 0xff bytes
var pool = [][]byte{{}, {0}, {0, 0}, {0, 255}, {1}, {1, 0}, {1, 1}, {1, 1, 0}, {1, 255}, {2}, {97}, {97, 98}, {97, 98, 99}, {97, 0, 99}, {255}, {255, 0}, {255, 255}}

// ---------------------------------------------------------------- zip tree
func ziptreeNode(k []byte, v int) *ziptree.Node {
	return ziptree.NewKVEntry(k, []byte(strconv.Itoa(v)))
}

func nodeVal(n *ziptree.Node) int {
	v, err := strconv.Atoi(string(n.Value))
	if err != nil {
		return -2
	}
	return v
}

type zipRun struct {
	z *ziptree.ZipTree
	v int
}

func (r *zipRun) put(k []byte) {
	r.v++
	old := -1
	p := tr.Guard(func() {
		rep := r.z.Put(ziptreeNode(slices.Clone(k), r.v))
		if rep != nil {
			old = nodeVal(rep)
		}
	})
	t.Ev("ZipPut", tr.M{"k": tr.Bytes(k), "v": r.v, "old": old, "panic": p})
}

func (r *zipRun) obs(keys [][]byte, prefixes [][]byte, limits []int) {
	gets, scans := []any{}, []any{}
	p := tr.Guard(func() {
		for _, k := range keys {
			v := -1
			if n, ok := r.z.Get(k); ok {
				v = nodeVal(n)
			}
			gets = append(gets, []any{tr.Bytes(k), v})
		}
		for i, pre := range prefixes {
			lim := -1
			if limits != nil {
				lim = limits[i]
			}
			out := []any{}
			if lim != 0 {
				for n := range r.z.AscendPrefix(pre) {
					out = append(out, []any{tr.Bytes(n.Key), nodeVal(n)})
					if len(out) == lim || len(out) > 300 {
						break
					}
				}
			}
			scans = append(scans, []any{tr.Bytes(pre), lim, out})
		}
	})
	t.Ev("ZipObs", tr.M{"gets": gets, "scans": scans, "panic": p})
}

func perms(n int) [][]int {
	if n == 0 {
		return [][]int{{}}
	}
	var out [][]int
	for _, p := range perms(n - 1) {
		for i := 0; i <= len(p); i++ {
			q := slices.Insert(slices.Clone(p), i, n-1)
			out = append(out, q)
		}
	}
	return out
}

func zip(r *rand.Rand) {
	small := [][]byte{{1}, {1, 1}, {1, 2}, {2}, {}}
	all := append([][]byte{{3}, {0}, {1, 1, 1}}, small...)
	// every insertion order of five keys, then two replacements; ranks are random, so repeat
	for rep := range tr.Pick(3, 24) {
		for i, p := range perms(5) {
			begin("zip", 0, fmt.Sprintf("perm %v rep %d", p, rep))
			z := &zipRun{z: ziptree.New()}
			for _, k := range p {
				z.put(small[k])
			}
			z.obs(all, all, nil)
			z.put(small[i%5])
			z.put(small[(i/5)%5])
			z.obs(all, all, nil)
		}
	}
	// random long histories with frequent observation
	for n := range tr.Pick(60, 600) {
		begin("zip", 0, fmt.Sprintf("random %d", n))
		z := &zipRun{z: ziptree.New()}
		keys := pool
		if n%3 == 0 { // a denser key set
			keys = nil
			for i := range 40 {
				keys = append(keys, []byte(fmt.Sprintf("k%02d", i)))
			}
		}
		z.obs([][]byte{keys[0]}, [][]byte{{}, keys[1]}, nil)
		for range 8 {
			for range 1 + r.Intn(8) {
				z.put(keys[r.Intn(len(keys))])
			}
			var gk, pk [][]byte
			var lim []int
			for range 5 {
				gk = append(gk, keys[r.Intn(len(keys))])
				pre := keys[r.Intn(len(keys))]
				pk = append(pk, pre[:r.Intn(len(pre)+1)])
				lim = append(lim, r.Intn(6)-1)
			}
			z.obs(gk, append(pk, []byte{}), append(lim, -1))
		}
		z.obs(keys, [][]byte{{}}, nil)
	}
}

// ---------------------------------------------------------------- sorted cache
func cache(r *rand.Rand) {
	run := func(script string, max int, ops []int, keys [][]byte) {
		begin("cache", max, script)
		c := ds.NewSortedCache(uint64(max))
		obs := func() {
			var ok, empty, full bool
			var k []byte
			p := tr.Guard(func() { k, ok = c.Peek(); empty = c.IsEmpty(); full = c.IsFull() })
			t.Ev("CObs", tr.M{"ok": ok, "k": tr.Bytes(k), "empty": empty, "full": full, "panic": p})
		}
		for _, op := range ops {
			k := keys[op/5%len(keys)]
			switch op % 5 {
			case 0, 1:
				p := tr.Guard(func() { c.Push(slices.Clone(k)) })
				t.Ev("CPush", tr.M{"k": tr.Bytes(k), "panic": p})
			case 2:
				var ok bool
				p := tr.Guard(func() { k, ok = c.Pop() })
				t.Ev("CPop", tr.M{"k": tr.Bytes(k), "ok": ok, "panic": p})
			case 3:
				var ok bool
				p := tr.Guard(func() { k, ok = c.PopLast() })
				t.Ev("CPopLast", tr.M{"k": tr.Bytes(k), "ok": ok, "panic": p})
			case 4:
				p := tr.Guard(func() { c.Delete(k) })
				t.Ev("CDelete", tr.M{"k": tr.Bytes(k), "panic": p})
			}
			obs()
		}
	}
	// all sequences of four operations over two keys with a budget of one to three bytes
	two := [][]byte{{7}, {7, 8}}
	alphabet := []int{0, 5, 2, 3, 4, 9} // push k0, push k1, pop, popLast, delete k0, delete k1
	depth := tr.Pick(4, 5)
	total := 1
	for range depth {
		total *= len(alphabet)
	}
	for i := range total {
		ops, x := []int{}, i
		for range depth {
			ops = append(ops, alphabet[x%len(alphabet)])
			x /= len(alphabet)
		}
		run(fmt.Sprintf("seq %d", i), 1+i%3, ops, two)
	}
	for n := range tr.Pick(40, 400) {
		var ops []int
		for range 60 {
			ops = append(ops, r.Intn(5*len(pool)))
		}
		run(fmt.Sprintf("random %d", n), []int{0, 1, 3, 7, 12, 1000}[n%6], ops, pool)
	}
}

// ---------------------------------------------------------------- heap
type item struct{ id, p, idx int }

func heap(r *rand.Rand) {
	run := func(script string, n int, choose func(live int) (op, arg, prio int)) {
		begin("heap", 0, script)
		h := ds.NewHeap(func(a, b *item) int { return cmp.Compare(a.p, b.p) }, 4)
		h.SetIndexAssigner(func(x *item, i int) { x.idx = i })
		var live []*item
		next := 0
		for range n {
			op, arg, prio := choose(len(live))
			switch {
			case op == 0 || len(live) == 0 && op == 2:
				next++
				x := &item{id: next, p: prio}
				p := tr.Guard(func() { h.Push(x) })
				live = append(live, x)
				t.Ev("HPush", tr.M{"id": x.id, "p": prio, "panic": p})
			case op == 1:
				id := 0
				p := tr.Guard(func() {
					if x, ok := h.Pop(); ok {
						id = x.id
						live = slices.DeleteFunc(live, func(y *item) bool { return y == x })
					}
				})
				t.Ev("HPop", tr.M{"id": id, "panic": p})
			case op == 2:
				x := live[arg%len(live)]
				x.p = prio
				p := tr.Guard(func() { h.Fix(x.idx) })
				t.Ev("HFix", tr.M{"id": x.id, "p": prio, "panic": p})
			}
			id, size, empty := 0, 0, false
			p := tr.Guard(func() {
				if x, ok := h.Peek(); ok {
					id = x.id
				}
				size, empty = h.Size(), h.IsEmpty()
			})
			t.Ev("HObs", tr.M{"id": id, "size": size, "empty": empty, "panic": p})
		}
		for {
			id := 0
			p := tr.Guard(func() {
				if x, ok := h.Pop(); ok {
					id = x.id
				}
			})
			t.Ev("HPop", tr.M{"id": id, "panic": p})
			if id == 0 || p != "" {
				break
			}
		}
	}
	for i, p := range perms(5) { // all insertion orders of five priorities, drain
		k := 0
		run(fmt.Sprintf("perm %d", i), 5, func(int) (int, int, int) { k++; return 0, 0, p[k-1] / 2 })
		k = 0
		// and all insertion orders followed by fixing each element to each priority
		run(fmt.Sprintf("permfix %d", i), 8, func(live int) (int, int, int) {
			k++
			if k <= 5 {
				return 0, 0, 2 * p[k-1]
			}
			return 2, i + 2*k, (i*7 + 3*k) % 11
		})
	}
	for n := range tr.Pick(60, 800) {
		run(fmt.Sprintf("random %d", n), 60, func(live int) (int, int, int) {
			op := r.Intn(3)
			if live < 6 && r.Intn(2) == 0 {
				op = 0
			}
			return op, r.Intn(100), r.Intn(2 + n%9)
		})
	}
}

// ---------------------------------------------------------------- partitioned queue
type part struct {
	items []*item
	index int
}

func (p *part) sorted() {
	slices.SortStableFunc(p.items, func(a, b *item) int { return cmp.Compare(a.p, b.p) })
}
func (p *part) Peek() (*item, bool) {
	if len(p.items) == 0 {
		return nil, false
	}
	return p.items[0], true
}
func (p *part) Pop() (*item, bool) {
	x, ok := p.Peek()
	if ok {
		p.items = p.items[1:]
	}
	return x, ok
}
func (p *part) Push(x *item)  { p.items = append(p.items, x); p.sorted() }
func (p *part) IsEmpty() bool { return len(p.items) == 0 }
func (p *part) Delete(x *item) {
	p.items = slices.DeleteFunc(p.items, func(y *item) bool { return x == y })
}
func (p *part) AssignIndex(i int) { p.index = i }
func (p *part) Index() int        { return p.index }

func ppq(r *rand.Rand) {
	for n := range tr.Pick(150, 1500) {
		nparts := 1 + n%6
		preload := n%4 == 1
		begin("ppq", 0, fmt.Sprintf("random %d parts %d preload %v", n, nparts, preload))
		var parts []ds.QueuePartition[*item]
		var live []*item
		next := 0
		for i := range nparts {
			pt := &part{}
			if preload && i%2 == 0 {
				next++
				x := &item{id: next, p: r.Intn(5), idx: i}
				pt.Push(x)
				live = append(live, x)
				t.Ev("HPush", tr.M{"id": x.id, "p": x.p, "panic": ""})
			}
			parts = append(parts, pt)
		}
		q := ds.NewPartitionedPriorityQueue(parts, func(a, b *item) int { return cmp.Compare(a.p, b.p) }, func(x *item) int { return x.idx })
		for range 40 {
			op := r.Intn(4)
			switch {
			case op <= 1 && r.Intn(3) > 0 || op == 3 && len(live) == 0:
				next++
				x := &item{id: next, p: r.Intn(6), idx: r.Intn(nparts)}
				p := tr.Guard(func() { q.Push(x) })
				live = append(live, x)
				t.Ev("HPush", tr.M{"id": x.id, "p": x.p, "panic": p})
			case op <= 2:
				id := 0
				p := tr.Guard(func() {
					if x, ok := q.Pop(); ok {
						id = x.id
						live = slices.DeleteFunc(live, func(y *item) bool { return y == x })
					}
				})
				t.Ev("HPop", tr.M{"id": id, "panic": p})
			default:
				x := live[r.Intn(len(live))]
				p := tr.Guard(func() { q.Delete(x) })
				live = slices.DeleteFunc(live, func(y *item) bool { return y == x })
				t.Ev("HDelete", tr.M{"id": x.id, "panic": p})
			}
			id, empty := 0, false
			p := tr.Guard(func() {
				if x, ok := q.Peek(); ok {
					id = x.id
				}
				empty = q.IsEmpty()
			})
			t.Ev("HObs", tr.M{"id": id, "size": -1, "empty": empty, "panic": p})
		}
	}
}

// ---------------------------------------------------------------- set
func set(r *rand.Rand) {
	for n := range tr.Pick(120, 1200) {
		begin("set", 0, fmt.Sprintf("random %d", n))
		regs := map[int]*ds.Set[int]{}
		for i := 1; i <= 3; i++ {
			if n%2 == 0 {
				regs[i] = ds.NewSet[int](i)
				t.Ev("SOf", tr.M{"dst": i, "xs": []int{}, "panic": ""})
			} else {
				xs := vals(r)
				p := tr.Guard(func() { regs[i] = ds.SetOf(xs...) })
				t.Ev("SOf", tr.M{"dst": i, "xs": xs, "panic": p})
			}
		}
		for range 25 {
			src, dst, b := 1+r.Intn(3), 1+r.Intn(3), 1+r.Intn(3)
			xs := vals(r)
			switch r.Intn(4) {
			case 0:
				p := tr.Guard(func() { regs[dst].Add(xs...) })
				t.Ev("SAdd", tr.M{"dst": dst, "xs": xs, "panic": p})
			case 1:
				p := tr.Guard(func() { regs[dst] = regs[src].Added(xs...) })
				t.Ev("SAdded", tr.M{"src": src, "dst": dst, "xs": xs, "panic": p})
			case 2:
				p := tr.Guard(func() { regs[dst] = regs[src].Without(xs...) })
				t.Ev("SWithout", tr.M{"src": src, "dst": dst, "xs": xs, "panic": p})
			case 3:
				p := tr.Guard(func() { regs[dst] = regs[src].Diff(regs[b]) })
				t.Ev("SDiff", tr.M{"src": src, "b": b, "dst": dst, "panic": p})
			}
			obs := []any{}
			p := tr.Guard(func() {
				for i := 1; i <= 3; i++ {
					has := []bool{}
					for x := 1; x <= 6; x++ {
						has = append(has, regs[i].Has(x))
					}
					obs = append(obs, []any{i, append([]int{}, regs[i].Slice()...), append([]int{}, slices.Collect(regs[i].All())...), regs[i].Size(), has})
				}
			})
			t.Ev("SObs", tr.M{"obs": obs, "panic": p})
		}
	}
}

func vals(r *rand.Rand) []int {
	xs := []int{}
	for range r.Intn(4) {
		xs = append(xs, 1+r.Intn(6))
	}
	return xs
}

// ---------------------------------------------------------------- sorted map
func smap(r *rand.Rand) {
	for n := range tr.Pick(100, 1000) {
		begin("smap", 0, fmt.Sprintf("random %d", n))
		m := ds.NewSortedMap[int, int]()
		for i := range 40 {
			k := r.Intn(4 + n%9)
			if r.Intn(3) > 0 {
				var isNew bool
				p := tr.Guard(func() { isNew = m.Set(k, i) })
				t.Ev("MSet", tr.M{"k": k, "v": i, "new": isNew, "panic": p})
			} else {
				var rem bool
				p := tr.Guard(func() { rem = m.Delete(k) })
				t.Ev("MDelete", tr.M{"k": k, "removed": rem, "panic": p})
			}
			if r.Intn(2) == 0 {
				continue // mutate several times between sorted observations
			}
			keys, values, all, gets, size := []int{}, []int{}, []any{}, []any{}, 0
			p := tr.Guard(func() {
				keys = append(keys, m.Keys()...)
				values = append(values, m.Values()...)
				for k, v := range m.All() {
					all = append(all, []int{k, v})
				}
				size = m.Size()
				for k := range 5 {
					v, ok := m.Get(k)
					if !ok {
						v = -1
					}
					gets = append(gets, []any{k, v, m.Has(k)})
				}
			})
			t.Ev("MObs", tr.M{"keys": keys, "values": values, "all": all, "size": size, "gets": gets, "panic": p})
		}
	}
}

// ---------------------------------------------------------------- merges, search
func toSeq(l [][2]int) iter.Seq[[2]int] { return slices.Values(l) }

func merges(r *rand.Rand) {
	begin("merge", 0, "merges")
	for n := range tr.Pick(600, 6000) {
		if n%50 == 49 {
			begin("merge", 0, fmt.Sprintf("merges %d", n))
		}
		nl := r.Intn(5)
		seq := 0
		lists := [][][2]int{}
		for range nl {
			l := [][2]int{}
			for k := range 8 {
				if r.Intn(3) == 0 {
					seq++
					l = append(l, [2]int{k, 0})
				}
			}
			lists = append(lists, l)
		}
		// distinct sequence numbers in random order
		ids := r.Perm(seq)
		i := 0
		for _, l := range lists {
			for j := range l {
				l[j][1] = ids[i] + 1
				i++
			}
		}
		lim := -1
		if r.Intn(4) == 0 {
			lim = 1 + r.Intn(4)
		}
		collect := func(s iter.Seq[[2]int]) [][2]int {
			out := [][2]int{}
			for x := range s {
				out = append(out, x)
				if len(out) == lim || len(out) > 200 {
					break
				}
			}
			return out
		}
		seqs := func(ls [][][2]int) []iter.Seq[[2]int] {
			o := []iter.Seq[[2]int]{}
			for _, l := range ls {
				o = append(o, toSeq(l))
			}
			return o
		}
		out := [][2]int{}
		p := tr.Guard(func() {
			out = collect(mergesort.Merge(seqs(lists), func(a, b [2]int) int { return cmp.Compare(a[0], b[0]) },
				func(a, b [2]int) [2]int {
					if a[1] > b[1] {
						return a
					}
					return b
				}))
		})
		t.Ev("Merge", tr.M{"lists": lists, "limit": lim, "out": out, "panic": p})

		// merge without de-duplication: lists of <<priority, id>>, priorities may repeat
		ls := [][][2]int{}
		id := 0
		for range r.Intn(5) {
			l := [][2]int{}
			for range r.Intn(6) {
				id++
				l = append(l, [2]int{r.Intn(6), id})
			}
			slices.SortStableFunc(l, func(a, b [2]int) int { return cmp.Compare(a[0], b[0]) })
			ls = append(ls, l)
		}
		out = [][2]int{}
		p = tr.Guard(func() {
			out = collect(iteru.MergeSorted(seqs(ls), func(a, b [2]int) int { return cmp.Compare(a[0], b[0]) }))
		})
		t.Ev("MergeSorted", tr.M{"lists": ls, "limit": lim, "out": out, "panic": p})
	}
	begin("search", 0, "search")
	for n := 0; n <= tr.Pick(24, 70); n++ {
		for _, step := range []int{2, 3} {
			xs := []int{}
			for i := range n {
				xs = append(xs, 10+i*step)
			}
			res := []any{}
			p := tr.Guard(func() {
				for tg := 8; tg <= 12+n*step; tg++ {
					i, ok := sliceu.SearchUnique(xs, tg, func(e, t int) int { return cmp.Compare(e, t) })
					res = append(res, []any{tg, i, ok})
				}
			})
			t.Ev("Search", tr.M{"xs": xs, "res": res, "panic": p})
		}
	}
}

func main() {
	t = tr.New()
	zip(tr.Rand(1))
	cache(tr.Rand(2))
	heap(tr.Rand(3))
	ppq(tr.Rand(4))
	set(tr.Rand(5))
	smap(tr.Rand(6))
	merges(tr.Rand(7))
	fmt.Println("traces", t.Traces, "events", t.Events)
}
