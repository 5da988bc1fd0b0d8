package props

import (
	"fmt"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"github.com/alexispb/mygosnmp/oid"
	"github.com/anishathalye/porcupine"

	"verif/harness/gen"
	"verif/harness/mon"
)

func init() {
	reg("C19", c19)
	reg("C20", c20)
}

// ---- linearizability of short histories ----

type opKind int

const (
	opAdd opKind = iota
	opGet
	opNext
	opRemove
	opLeaves
	opClear
	opDump // all nodes, taken when everything is quiet
)

type treeOp struct {
	kind    opKind
	id, end []uint32
	include bool
}

func (o treeOp) String() string {
	switch o.kind {
	case opAdd:
		return "Add" + showOID(o.id)
	case opGet:
		return "Get" + showOID(o.id)
	case opNext:
		return fmt.Sprintf("Next(%v,%v,%v)", o.id, o.end, o.include)
	case opRemove:
		return "Remove" + showOID(o.id)
	case opLeaves:
		return "Leaves"
	case opClear:
		return "Clear"
	}
	return "Dump"
}

type seen struct {
	key string
	n   *oid.Node
}

type treeRes struct {
	n    *oid.Node
	ok   bool
	list []seen
}

type rec struct {
	op       treeOp
	res      treeRes
	call, rt int64
}

// spin waits a little without synchronising with anything.
func spin(n int) {
	for i := 0; i < n; i++ {
		if i%64 == 63 {
			runtime.Gosched()
		}
	}
}

func doOp(t *oid.Tree, op treeOp, yield int) (res treeRes) {
	switch op.kind {
	case opAdd:
		res.n = t.AddNode(op.id)
	case opGet:
		res.n = t.GetNode(op.id)
	case opNext:
		res.n = t.GetNextNode(op.id, op.end, op.include)
	case opRemove:
		res.ok = t.RemoveNode(op.id)
	case opClear:
		t.Clear()
	case opLeaves:
		k := 0
		t.ForRangeLeaves(func(id []uint32, n *oid.Node) {
			res.list = append(res.list, seen{key(id), n})
			if k++; yield > 0 && k%2 == 0 {
				spin(yield)
				runtime.Gosched()
			}
		})
	}
	return
}

// dump lists all nodes of a quiet tree and checks its links.
func dump(t *oid.Tree) (list []seen, bad string) {
	root := t.GetNode(nil)
	if root == nil {
		return nil, "GetNode(empty OID) = nil"
	}
	var walk func(n *oid.Node, id []uint32, depth int)
	walk = func(n *oid.Node, id []uint32, depth int) {
		if depth > 5000 {
			bad = "the tree has a cycle"
		}
		for i, ch := range n.Children {
			if bad != "" {
				return
			}
			if ch == nil {
				bad = fmt.Sprintf("child %d of %s is nil", i, showOID(id))
				return
			}
			cid := append(append([]uint32(nil), id...), ch.Subid)
			if i > 0 && n.Children[i-1].Subid >= ch.Subid {
				bad = fmt.Sprintf("children of %s are not strictly ascending: %d then %d", showOID(id), n.Children[i-1].Subid, ch.Subid)
				return
			}
			if ch.Parent != n {
				bad = fmt.Sprintf("the parent link of %s is wrong", showOID(cid))
				return
			}
			list = append(list, seen{key(cid), ch})
			walk(ch, cid, depth+1)
		}
	}
	walk(root, nil, 0)
	sort.Slice(list, func(i, j int) bool { return list[i].key < list[j].key })
	return
}

// The model state is a sorted list of (key, node number); number 0 stands for
// a node created as a prefix whose identity nobody has seen yet.
type mstate []struct {
	key string
	ptr int
}

func (s mstate) find(k string) (int, bool) {
	i := sort.Search(len(s), func(i int) bool { return s[i].key >= k })
	return i, i < len(s) && s[i].key == k
}

func (s mstate) with(k string, ptr int) mstate {
	i, ok := s.find(k)
	out := make(mstate, 0, len(s)+1)
	out = append(out, s[:i]...)
	out = append(out, struct {
		key string
		ptr int
	}{k, ptr})
	if ok {
		i++
	}
	return append(out, s[i:]...)
}

func (s mstate) leaf(i int) bool {
	return i+1 == len(s) || !strings.HasPrefix(s[i+1].key, s[i].key)
}

type linModel struct {
	num     map[*oid.Node]int
	keyOf   map[int]string // OID of a node number, when some result told it
	created map[int]bool   // returned by AddNode
}

// bind matches an observed node with the entry i of the state.
func (l *linModel) bind(s mstate, i int, n *oid.Node) (bool, mstate) {
	p := l.num[n]
	if k, ok := l.keyOf[p]; ok && k != s[i].key {
		return false, s
	}
	if s[i].ptr == p {
		return true, s
	}
	if s[i].ptr != 0 || l.created[p] {
		return false, s
	}
	return true, s.with(s[i].key, p)
}

func (l *linModel) step(st, in, out interface{}) (bool, interface{}) {
	s, o, r := st.(mstate), in.(treeOp), out.(treeRes)
	switch o.kind {
	case opAdd:
		k := key(o.id)
		_, have := s.find(k)
		if have || k == "" {
			return r.n == nil, s
		}
		if r.n == nil {
			return false, s
		}
		for n := 4; n < len(k); n += 4 {
			if _, ok := s.find(k[:n]); !ok {
				s = s.with(k[:n], 0)
			}
		}
		return true, s.with(k, l.num[r.n])
	case opGet:
		i, have := s.find(key(o.id))
		if !have {
			return r.n == nil, s
		}
		if r.n == nil {
			return false, s
		}
		return wrap(l.bind(s, i, r.n))
	case opRemove:
		k := key(o.id)
		_, have := s.find(k)
		if !have || k == "" {
			return !r.ok, s
		}
		if !r.ok {
			return false, s
		}
		var rest mstate
		for _, e := range s {
			if !strings.HasPrefix(e.key, k) {
				rest = append(rest, e)
			}
		}
		return true, rest
	case opClear:
		return true, mstate(nil)
	case opNext:
		a, e := key(o.id), key(o.end)
		for i := range s {
			if !s.leaf(i) || s[i].key < a || s[i].key == a && !o.include {
				continue
			}
			if e != "" && s[i].key >= e {
				break
			}
			if r.n == nil {
				return false, s
			}
			return wrap(l.bind(s, i, r.n))
		}
		return r.n == nil, s
	case opLeaves, opDump:
		j := 0
		for i := 0; i < len(s); i++ {
			if o.kind == opLeaves && !s.leaf(i) {
				continue
			}
			if j == len(r.list) || r.list[j].key != s[i].key {
				return false, s
			}
			ok, t := l.bind(s, i, r.list[j].n)
			if !ok {
				return false, s
			}
			s = t
			j++
		}
		return j == len(r.list), s
	}
	return false, s
}

func wrap(ok bool, s mstate) (bool, interface{}) { return ok, s }

func (l *linModel) porcupine() porcupine.Model {
	return porcupine.Model{
		Init: func() interface{} { return mstate(nil) },
		Step: l.step,
		Equal: func(a, b interface{}) bool {
			x, y := a.(mstate), b.(mstate)
			if len(x) != len(y) {
				return false
			}
			for i := range x {
				if x[i] != y[i] {
					return false
				}
			}
			return true
		},
	}
}

func (l *linModel) show(r rec) string {
	res := ""
	name := func(n *oid.Node) string {
		if n == nil {
			return "nil"
		}
		if k, ok := l.keyOf[l.num[n]]; ok {
			return fmt.Sprintf("#%d(%s)", l.num[n], refText(unkey(k)))
		}
		return fmt.Sprintf("#%d", l.num[n])
	}
	switch r.op.kind {
	case opAdd, opGet, opNext:
		res = name(r.res.n)
	case opRemove:
		res = fmt.Sprint(r.res.ok)
	case opLeaves, opDump:
		var xs []string
		for _, s := range r.res.list {
			xs = append(xs, refText(unkey(s.key))+"="+name(s.n))
		}
		res = "{" + strings.Join(xs, " ") + "}"
	}
	return r.op.String() + "->" + res
}

// linPool is a small set of OIDs around which short histories revolve.
func linPool(r gen.R) [][]uint32 {
	pools := [][][]uint32{
		{{1}, {2}, {1, 1}, {1, 2}, {1, 1, 1}},
		{{1}, {2}, {3}},
		{{1, 1}, {1, 2}, {1, 3}, {1}},
		{{1, 2, 3, 4}, {1, 2, 3}, {1, 2}, {1}, {1, 2, 3, 5}},
		{{5, 0}, {5, 1 << 31}, {5, 1<<32 - 1}, {4}, {6}},
		{{1, 1}, {2, 1}, {1}, {2}},
		{{9}, {9, 9}},
		{{1, 1, 1}, {1, 1, 2}, {1, 2, 1}, {1, 2, 2}, {1, 1}, {1, 2}, {1}},
	}
	if r.IntN(12) == 0 {
		return cluster(r, 9+r.IntN(12))
	}
	return gen.Pick(r, pools)
}

func linOps(r gen.R, ids [][]uint32, n, flavour int) []treeOp {
	var ops []treeOp
	for i := 0; i < n; i++ {
		id := gen.Pick(r, ids)
		k := opKind(r.IntN(6))
		if k == opClear && r.IntN(4) > 0 {
			k = opAdd
		}
		switch flavour {
		case 1: // writers only
			k = gen.Pick(r, []opKind{opAdd, opAdd, opRemove})
		case 2: // readers only
			k = gen.Pick(r, []opKind{opGet, opNext, opLeaves})
		case 3: // adds and iterations
			k = gen.Pick(r, []opKind{opAdd, opLeaves, opNext})
		}
		op := treeOp{kind: k, id: id}
		if k == opNext {
			op.include = r.IntN(2) == 0
			if r.IntN(3) == 0 {
				op.id = nil
			}
			if r.IntN(3) == 0 {
				op.end = gen.Pick(r, ids)
			}
		}
		ops = append(ops, op)
	}
	return ops
}

func linearizable(c *mon.Case, preset, g, n int) {
	r := c.R
	ids := linPool(r)
	t := oid.NewTree()
	var hist []rec
	k := r.IntN(preset + 1)
	if len(ids) > 8 { // a run of siblings with a gap somewhere, mostly near the end
		gap := gen.Pick(r, []int{len(ids) - 2, len(ids) - 1, 0, r.IntN(len(ids))})
		for i, id := range ids {
			if i != gap {
				op := treeOp{kind: opAdd, id: id}
				res := doOp(t, op, 0)
				hist = append(hist, rec{op, res, int64(len(hist)), int64(len(hist))})
			}
		}
		ids = [][]uint32{ids[gap], ids[max(0, gap-1)], ids[min(gap+1, len(ids)-1)], gen.Pick(r, ids), gen.Pick(r, ids)}
	}
	for ; k > 0; k-- { // a sequential prologue
		op := treeOp{kind: opAdd, id: gen.Pick(r, ids)}
		res := doOp(t, op, 0)
		hist = append(hist, rec{op, res, int64(len(hist)), int64(len(hist))})
	}
	plans := make([][]treeOp, g)
	style := r.IntN(3)
	for i := range plans {
		flavour := 0
		if style == 1 {
			flavour = 1 + i%2
		} else if style == 2 {
			flavour = []int{3, 1, 0}[i%3]
		}
		plans[i] = linOps(r, ids, 1+r.IntN(n), flavour)
	}
	delay := make([]int, g)
	for i := range delay {
		delay[i] = r.IntN(3) * r.IntN(400)
	}
	recs := make([][]rec, g)
	base := time.Now()
	var ready atomic.Int32
	var wg sync.WaitGroup
	for i := 0; i < g; i++ {
		recs[i] = make([]rec, 0, len(plans[i]))
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ready.Add(1)
			for ready.Load() < int32(g) {
				runtime.Gosched()
			}
			spin(delay[i])
			for _, op := range plans[i] {
				call := int64(time.Since(base))
				res := doOp(t, op, 100)
				ret := int64(time.Since(base))
				recs[i] = append(recs[i], rec{op, res, call, ret})
			}
		}(i)
	}
	wg.Wait()
	list, bad := dump(t)
	if bad != "" {
		c.Fail("after all calls finished: %s; history:\n%s", bad, showHistory(&linModel{num: map[*oid.Node]int{}}, recs))
	}
	// identities
	l := &linModel{num: map[*oid.Node]int{}, keyOf: map[int]string{}, created: map[int]bool{}}
	number := func(n *oid.Node) int {
		if n == nil {
			return 0
		}
		if l.num[n] == 0 {
			l.num[n] = len(l.num) + 1
		}
		return l.num[n]
	}
	pro := len(hist)
	for i := range recs {
		hist = append(hist, recs[i]...)
	}
	told := func(n *oid.Node, k string) {
		p := number(n)
		if old, ok := l.keyOf[p]; ok && old != k {
			c.Fail("one node was returned for two OIDs, %s and %s; history:\n%s", showOID(unkey(old)), showOID(unkey(k)), showHistory(l, recs))
		}
		l.keyOf[p] = k
	}
	// nodes still linked into the tree were told by the final dump
	for _, s := range list {
		told(s.n, s.key)
	}
	overlap := 0
	for i, h := range hist {
		switch h.op.kind {
		case opAdd:
			if h.res.n != nil {
				told(h.res.n, key(h.op.id))
				if l.created[number(h.res.n)] {
					c.Fail("two AddNode calls returned the same node; history:\n%s", showHistory(l, recs))
				}
				l.created[number(h.res.n)] = true
			}
		case opGet:
			if h.res.n != nil {
				told(h.res.n, key(h.op.id))
			}
		case opNext:
			number(h.res.n)
		case opLeaves:
			for _, s := range h.res.list {
				told(s.n, s.key)
			}
		}
		for _, q := range hist[max(i+1, pro):] {
			if i >= pro && q.call < h.rt && h.call < q.rt {
				overlap++
			}
		}
	}
	var ops []porcupine.Operation
	last := int64(0)
	for i, h := range hist {
		o := porcupine.Operation{ClientId: 0, Input: h.op, Output: h.res}
		if i < pro {
			o.Call, o.Return = int64(2*i), int64(2*i+1)
		} else { // equal clock readings count as concurrent
			o.Call, o.Return = int64(2*pro)+2*h.call, int64(2*pro)+2*h.rt+1
		}
		last = max(last, o.Return)
		ops = append(ops, o)
	}
	at := pro
	for i := range recs {
		for range recs[i] {
			ops[at].ClientId = i + 1
			at++
		}
	}
	ops = append(ops, porcupine.Operation{ClientId: 0, Input: treeOp{kind: opDump}, Output: treeRes{list: list}, Call: last + 1, Return: last + 2})
	switch porcupine.CheckOperationsTimeout(l.porcupine(), ops, 20*time.Second) {
	case porcupine.Illegal:
		var pre []string
		for _, h := range hist[:pro] {
			pre = append(pre, l.show(h))
		}
		c.Fail("no sequential order explains the results; prologue: %s\n%sfinal state: %s", strings.Join(pre, "; "), showHistory(l, recs),
			l.show(rec{op: treeOp{kind: opDump}, res: treeRes{list: list}}))
	case porcupine.Unknown:
		c.Event("checker-timeouts")
		return
	}
	c.Event("histories")
	c.EventN("operations", len(hist))
	c.EventN("overlapping-pairs", overlap)
	if overlap > 0 {
		c.Event("concurrent-histories")
		// which interleaving: the order of call and return events with results
		type ev struct {
			t int64
			s string
		}
		var evs []ev
		for i := range recs {
			for j, h := range recs[i] {
				evs = append(evs, ev{h.call * 2, fmt.Sprintf("c%d.%d", i, j)}, ev{h.rt*2 + 1, fmt.Sprintf("r%d.%d", i, j)})
			}
		}
		sort.SliceStable(evs, func(a, b int) bool { return evs[a].t < evs[b].t })
		var sb strings.Builder
		for _, e := range evs {
			sb.WriteString(e.s)
		}
		for i := range recs {
			for _, h := range recs[i] {
				sb.WriteString(h.op.String())
			}
		}
		c.Sig(sb.String())
	}
	c.Sample(func() string { return showHistory(l, recs) })
}

func showHistory(l *linModel, recs [][]rec) string {
	var sb strings.Builder
	for i := range recs {
		fmt.Fprintf(&sb, "goroutine %d:", i)
		for _, h := range recs[i] {
			fmt.Fprintf(&sb, " [%d,%d]%s", h.call, h.rt, l.show(h))
		}
		sb.WriteString("\n")
	}
	return sb.String()
}

// partitioned: every goroutine owns a subtree and must see exactly sequential
// results there although all goroutines restructure the same tree.
func partitioned(c *mon.Case, g, n int) {
	t := oid.NewTree()
	type worker struct {
		m   *model
		bad string
		ev  map[string]int
	}
	ws := make([]*worker, g)
	depth := c.R.IntN(3) // shared levels above the partitions
	var ready atomic.Int32
	var wg sync.WaitGroup
	for i := range ws {
		w := &worker{m: newModel(), ev: map[string]int{}}
		ws[i] = w
		base := make([]uint32, depth, depth+1)
		for j := range base {
			base[j] = 7
		}
		base = append(base, uint32(c.R.IntN(1<<10))<<16+uint32(i))
		r := c.R // seeded plan, made before the goroutine starts
		type pop struct {
			k  int
			id []uint32
			e  []uint32
			in bool
		}
		plan := make([]pop, n)
		rel := allOIDs([]uint32{1, 2, 3}, 3)
		for j := range plan {
			plan[j] = pop{r.IntN(12), append(append([]uint32(nil), base...), gen.Pick(r, rel)...), append(append([]uint32(nil), base...), gen.Pick(r, rel)...), r.IntN(2) == 0}
		}
		stop := append([]uint32(nil), base...)
		stop[len(stop)-1]++
		wg.Add(1)
		go func(i int) {
			defer wg.Done()
			ready.Add(1)
			for ready.Load() < int32(g) {
				runtime.Gosched()
			}
			fail := func(format string, args ...interface{}) {
				if w.bad == "" {
					w.bad = fmt.Sprintf(format, args...)
				}
			}
			mem := [2][]uint32{make([]uint32, 0, 24), make([]uint32, 0, 24)}
			arg := func(which int, id []uint32) []uint32 { // one variable per goroutine
				if i%2 == 0 {
					return id
				}
				return append(mem[which][:0], id...)
			}
			match := func(what string, k string, nd *oid.Node) {
				e := w.m.nodes[k]
				if e == nil || nd == nil {
					if (e == nil) != (nd == nil) {
						fail("%s returned a node: %v, want %v", what, nd != nil, e != nil)
					}
					return
				}
				if e.ptr == nil {
					e.ptr = nd
				} else if e.ptr != nd {
					fail("%s returned another node than before", what)
				}
			}
			for _, p := range plan {
				if w.bad != "" {
					return
				}
				switch {
				case p.k < 4:
					nd := t.AddNode(arg(0, p.id))
					fresh := w.m.add(p.id)
					for k := 4; k <= 4*depth; k += 4 { // the shared levels are not ours
						delete(w.m.nodes, key(p.id)[:k])
					}
					if fresh != (nd != nil) {
						fail("AddNode(%s) returned a node: %v", showOID(p.id), nd != nil)
					} else if nd != nil {
						match("AddNode", key(p.id), nd)
					}
					w.ev["adds"]++
				case p.k < 6:
					if got, want := t.RemoveNode(arg(0, p.id)), w.m.remove(p.id); got != want {
						fail("RemoveNode(%s) = %v, want %v", showOID(p.id), got, want)
					}
					w.ev["removes"]++
				case p.k < 8:
					match("GetNode"+showOID(p.id), key(p.id), t.GetNode(arg(0, p.id)))
					w.ev["gets"]++
				case p.k < 11:
					// inside the own partition the answer is exact
					end := p.e
					if p.in {
						end = stop
					}
					want, ok := next(w.m.leaves(), p.id, end, p.in)
					// the partition root is a leaf of others' view only if present
					nd := t.GetNextNode(arg(0, p.id), arg(1, end), p.in)
					if !ok {
						want = "none"
					}
					match(fmt.Sprintf("GetNextNode(%s, %s, %v)", showOID(p.id), showOID(end), p.in), want, nd)
					w.ev["nexts"]++
				default:
					var got []string
					t.ForRangeLeaves(func(id []uint32, nd *oid.Node) {
						if len(id) > depth && id[depth] == base[depth] {
							got = append(got, key(id))
						}
					})
					if want := w.m.leaves(); strings.Join(got, "|") != strings.Join(want, "|") {
						fail("ForRangeLeaves reports %s, want %s", showLeaves(got), showLeaves(want))
					}
					w.ev["iterations"]++
				}
			}
		}(i)
	}
	wg.Wait()
	all := newModel()
	for i, w := range ws {
		if w.bad != "" {
			c.Fail("goroutine %d of %d, alone in its subtree: %s", i, g, w.bad)
		}
		for k, e := range w.m.nodes {
			all.nodes[k] = e
		}
		for k, v := range w.ev {
			c.EventN("partitioned-"+k, v)
		}
	}
	// the shared levels remain, empty or not, once any goroutine added below them
	if depth > 0 {
		list, _ := dump(t)
		for _, s := range list {
			if len(s.key) <= 4*depth && all.nodes[s.key] == nil {
				all.nodes[s.key] = &mnode{}
			}
		}
	}
	if d := all.audit(t); d != "" {
		c.Fail("after all calls finished: %s", d)
	}
	c.Event("partitioned-runs")
	c.Sig("part", c.Index, len(all.nodes))
}

// contended: many goroutines fight for the same OIDs; counts must balance.
func contended(c *mon.Case, g, n int) {
	t := oid.NewTree()
	k := 1 + c.R.IntN(4)
	leaf := func(i int) []uint32 { return []uint32{3, uint32(i)} }
	added, removed := make([][]int, g), make([][]int, g)
	var bad atomic.Value
	var ready atomic.Int32
	var wg sync.WaitGroup
	t.AddNode([]uint32{3})
	for w := 0; w < g; w++ {
		added[w], removed[w] = make([]int, k), make([]int, k)
		plan := make([]int, n)
		for i := range plan {
			plan[i] = c.R.IntN(k*2 + 2)
		}
		wg.Add(1)
		go func(w int) {
			defer wg.Done()
			ready.Add(1)
			for ready.Load() < int32(g) {
				runtime.Gosched()
			}
			for _, p := range plan {
				switch {
				case p < k:
					if t.AddNode(leaf(p)) != nil {
						added[w][p]++
					}
				case p < 2*k:
					if t.RemoveNode(leaf(p - k)) {
						removed[w][p-k]++
					}
				default:
					prev := ""
					t.ForRangeLeaves(func(id []uint32, _ *oid.Node) {
						if q := key(id); q <= prev {
							bad.Store(fmt.Sprintf("a leaf iteration reports %s after %s", showOID(id), showOID(unkey(prev))))
						} else {
							prev = q
						}
					})
				}
			}
		}(w)
	}
	wg.Wait()
	if b := bad.Load(); b != nil {
		c.Fail("%s", b)
	}
	if _, d := dump(t); d != "" {
		c.Fail("after all calls finished: %s", d)
	}
	for i := 0; i < k; i++ {
		a, rm := 0, 0
		for w := range added {
			a += added[w][i]
			rm += removed[w][i]
		}
		have := 0
		if t.GetNode(leaf(i)) != nil {
			have = 1
		}
		if a-rm != have {
			c.Fail("%v was added %d times and removed %d times, present at the end: %d", leaf(i), a, rm, have)
		}
		c.EventN("contended-adds", a)
		c.EventN("contended-removes", rm)
	}
	c.Event("contended-runs")
	c.Sig("cont", c.Index)
}

func c19(run *mon.Run) {
	run.Rule("Goroutines call all tree methods: (1) many short histories over few OIDs with client-side call/return times, checked for linearizability with node identities and a final full dump; (2) long runs where each goroutine owns a subtree and must see sequential results in it; (3) contended add/remove with conservation of counts. Race and yield-instrumented builds repeat this. Non-trivial: a history with overlapping calls; distinct by interleaving of call/return events and operations.")
	runtime.GOMAXPROCS(max(8, runtime.NumCPU()))
	div := 1
	if run.Variant != "plain" {
		div = 3
	}
	run.Cases("histories-small", run.N(60000, 1500000)/div, func(c *mon.Case) { linearizable(c, 3, 2+c.R.IntN(2), 3) })
	run.Cases("histories", run.N(40000, 1000000)/div, func(c *mon.Case) { linearizable(c, 5, 2+c.R.IntN(3), 6) })
	run.Cases("histories-wide", run.N(6000, 150000)/div, func(c *mon.Case) { linearizable(c, 4, 5+c.R.IntN(4), 3) })
	run.Cases("partitioned", run.N(900, 20000)/div, func(c *mon.Case) { partitioned(c, 2+c.R.IntN(7), 400) })
	run.Cases("contended", run.N(900, 20000)/div, func(c *mon.Case) { contended(c, 2+c.R.IntN(7), 600) })
	// a callback that panics must not leave the tree locked
	run.Cases("callback-panics", run.N(200, 2000), func(c *mon.Case) {
		t := oid.NewTree()
		for i := 0; i < 4; i++ {
			t.AddNode([]uint32{1, uint32(i)})
		}
		stop := c.R.IntN(4)
		func() {
			defer func() { recover() }()
			t.ForRangeLeaves(func(id []uint32, _ *oid.Node) {
				if int(id[1]) == stop {
					panic("callback")
				}
			})
		}()
		if t.AddNode([]uint32{2}) == nil || !t.RemoveNode([]uint32{1, 0}) {
			c.Fail("the tree does not work after a panicking leaf callback")
		}
		t.Clear()
		c.Event("panicking-callbacks")
	})
	run.Need("histories", 4000)
	run.Need("concurrent-histories", 20)
	run.Need("partitioned-runs", 50)
	run.Need("contended-runs", 50)
}

// ---- walks ----

func c20(run *mon.Run) {
	run.Rule("GetNext walks (complete, bounded, with included start) over random trees are compared with the leaf iteration and the model; walks by several goroutines run while others add and remove nodes around leaves that stay, and must be strictly ascending and contain every staying leaf once. Non-trivial: a walk over two or more leaves; distinct by visited sequence.")
	runtime.GOMAXPROCS(max(8, runtime.NumCPU()))
	div := 1
	if run.Variant != "plain" {
		div = 4
	}
	walk := func(c *mon.Case, x *treeRun, start, end []uint32, include bool) []string {
		var got []string
		cur, inc := start, include
		limit := len(x.m.nodes) + 2
		for {
			n := x.t.GetNextNode(bufOf(c).arg(c.R, 0, cur), bufOf(c).arg(c.R, 1, end), inc)
			if n == nil {
				return got
			}
			id, ok := oidOf(n)
			if !ok {
				c.Fail("parent links of a returned node form a cycle")
			}
			if len(got) > 0 && refCompare(id, cur) <= 0 {
				c.Fail("the walk goes from %s to %s; leaves %s", showOID(cur), showOID(id), showLeaves(x.m.leaves()))
			}
			got = append(got, key(id))
			if len(got) > limit {
				c.Fail("the walk does not end: %d steps over %d nodes", len(got), len(x.m.nodes))
			}
			cur, inc = id, false
		}
	}
	same := func(c *mon.Case, what string, got, want []string) {
		if strings.Join(got, "|") != strings.Join(want, "|") || len(got) != len(want) {
			c.Fail("%s visits %s, want %s", what, showLeaves(got), showLeaves(want))
		}
	}
	sweep := func(c *mon.Case, x *treeRun, ids [][]uint32, bounds int) {
		leaves := x.m.leaves()
		got := walk(c, x, nil, nil, false)
		same(c, "the walk from the empty OID", got, leaves)
		if c.R.IntN(2) == 0 {
			same(c, "the walk from the empty OID, included", walk(c, x, []uint32{}, []uint32{}, true), leaves)
		}
		var it []string
		x.t.ForRangeLeaves(func(id []uint32, n *oid.Node) { it = append(it, key(id)) })
		same(c, "the leaf iteration", it, got)
		c.Event("walks")
		c.EventN("visits", len(got))
		if len(got) > 1 {
			c.Sig(strings.Join(got, "|"))
		}
		for k := 0; k < bounds; k++ {
			s, e := gen.Pick(c.R, ids), gen.Pick(c.R, ids)
			if c.R.IntN(3) == 0 {
				s = relatedOID(c.R, s)
			}
			if c.R.IntN(3) == 0 {
				e = relatedOID(c.R, e)
			}
			if c.R.IntN(5) == 0 {
				e = nil
			}
			inc := c.R.IntN(2) == 0
			var want []string
			for _, l := range leaves {
				if (l > key(s) || inc && l == key(s)) && (len(e) == 0 || l < key(e)) {
					want = append(want, l)
				}
			}
			same(c, fmt.Sprintf("the walk over [%s, %s) include %v in %s", showOID(s), showOID(e), inc, showLeaves(leaves)), walk(c, x, s, e, inc), want)
			c.Event("bounded-walks")
		}
	}
	trees := smallTrees([]uint32{2, 4}, 3)
	small := allOIDs([]uint32{1, 2, 3, 4}, 2)
	run.Cases("small-trees", len(trees), func(c *mon.Case) {
		x := newTreeRun(c)
		for _, id := range trees[c.Index] {
			x.t.AddNode(id)
			x.m.add(id)
		}
		sweep(c, x, small, 60/div)
		c.Sample(func() string { return showLeaves(x.m.leaves()) })
	})
	run.Cases("random", run.N(40000, 900000)/div, func(c *mon.Case) {
		x := newTreeRun(c)
		ids := pool(c.R, 3+c.R.IntN(40))
		for _, id := range ids {
			x.t.AddNode(id)
			x.m.add(id)
		}
		sweep(c, x, ids, 8)
		for k := c.R.IntN(5); k > 0; k-- {
			id := gen.Pick(c.R, ids)
			x.t.RemoveNode(id)
			x.m.remove(id)
			sweep(c, x, ids, 3)
		}
	})
	// walks again after each of many changes of the same tree
	run.Cases("histories", run.N(6000, 120000)/div, func(c *mon.Case) {
		x := newTreeRun(c)
		ids := pool(c.R, 3+c.R.IntN(20))
		for k := 8 + c.R.IntN(25); k > 0; k-- {
			id := gen.Pick(c.R, ids)
			switch p := c.R.IntN(20); {
			case p == 0:
				x.clear()
			case p < 7:
				x.remove(id)
			default:
				x.add(id)
			}
			sweep(c, x, ids, c.R.IntN(2))
		}
		c.Event("walk-histories")
	})
	run.Cases("rounds", run.N(300, 5000)/div, func(c *mon.Case) {
		rounds(c, func(x *treeRun, sub func(...uint32) []uint32) {
			sweep(c, x, [][]uint32{sub(7), sub(8), sub(5)}, c.R.IntN(2))
		})
	})
	run.Cases("large", run.N(40, 400)/div, func(c *mon.Case) {
		x := newTreeRun(c)
		ids := pool(c.R, 300+c.R.IntN(1500))
		if c.R.IntN(2) == 0 {
			ids = append(ids, gen.OIDn(c.R, 128), gen.OIDn(c.R, 300))
		}
		for i := 0; i < 400; i++ {
			ids = append(ids, []uint32{1, 3, 6, 1, 2, 1, 2, 2, 1, uint32(i % 8), uint32(i)})
		}
		for _, id := range ids {
			x.t.AddNode(id)
			x.m.add(id)
		}
		sweep(c, x, ids, 6)
	})
	if run.Variant == "plain" {
		run.Cases("huge", run.N(len(hugeSizes), 6*len(hugeSizes)), func(c *mon.Case) { huge(c, hugeSizes[c.Index%len(hugeSizes)]-c.R.IntN(300), "walk") })
	}
	// deep trees: walks from nodes, inner nodes and OIDs beside them
	run.Cases("deep", run.N(400, 6000)/div, func(c *mon.Case) {
		x := newTreeRun(c)
		n := gen.Pick(c.R, []int{16, 20, 21, 30, 33, 60, 64, 65, 100, 127, 128, 129, 200, 256, 300})
		id := gen.OIDn(c.R, n)
		ids := [][]uint32{id}
		for k := c.R.IntN(5); k > 0; k-- {
			ids = append(ids, relatedOID(c.R, id))
		}
		for _, id := range ids {
			x.t.AddNode(id)
			x.m.add(id)
		}
		for k := 0; k < 12; k++ {
			ids = append(ids, id[:c.R.IntN(n+1)])
		}
		ids = append(ids, id[:n-1], id[:n-2], id[:n/2])
		sweep(c, x, ids, 40)
		x.t.RemoveNode(id)
		x.m.remove(id)
		sweep(c, x, ids, 10)
	})
	run.Cases("concurrent", run.N(2000, 40000)/div, func(c *mon.Case) { walkUnderFire(c) })
	run.Cases("concurrent-clear", run.N(600, 12000)/div, func(c *mon.Case) { walkAndClear(c) })
	run.Need("walks", 2000)
	run.Need("bounded-walks", 10000)
	run.Need("walk-histories", 500)
	run.Need("concurrent-walks", 300)
	run.Need("walks-while-clearing", 300)
	run.Need("clears-during-walks", 100)
	run.Need("mutations-during-walks", 100)
}

// registry tells the OID of a node by its identity.
type registry struct {
	mu sync.Mutex
	m  map[*oid.Node]string
}

func (g *registry) put(n *oid.Node, k string) { g.mu.Lock(); g.m[n] = k; g.mu.Unlock() }
func (g *registry) get(n *oid.Node) (string, bool) {
	g.mu.Lock()
	k, ok := g.m[n]
	g.mu.Unlock()
	return k, ok
}

func walkUnderFire(c *mon.Case) {
	r := c.R
	t := oid.NewTree()
	reg := &registry{m: map[*oid.Node]string{}}
	regions := 1 + r.IntN(4)
	var stable []string
	add := func(id []uint32) {
		n := t.AddNode(id)
		if n == nil {
			c.Error("bad stable leaf")
		}
		reg.put(n, key(id))
		stable = append(stable, key(id))
	}
	for g := 0; g < regions; g++ {
		a := uint32(g * 10)
		add([]uint32{1, a, 0})
		add([]uint32{1, a, 5, 7})
		add([]uint32{1, a, 5, 9, 1})
		add([]uint32{1, a, 8})
		add([]uint32{1, a, 1<<32 - 1})
		if r.IntN(2) == 0 {
			add([]uint32{1, a + 5})
		}
	}
	sort.Strings(stable)
	var done atomic.Int32
	var wg sync.WaitGroup
	var mut, visits atomic.Int64
	var bad atomic.Value
	walkers := 1 + r.IntN(3)
	var ready atomic.Int32
	all := int32(regions + walkers)
	barrier := func() {
		ready.Add(1)
		for ready.Load() < all {
			runtime.Gosched()
		}
	}
	var walking atomic.Int32
	walking.Store(int32(walkers))
	for g := 0; g < regions; g++ {
		a := uint32(g * 10)
		// volatile nodes of this region: never below a stable leaf, never above one
		vol := [][]uint32{{1, a, 1}, {1, a, 3}, {1, a, 3, 1}, {1, a, 3, 1, 2}, {1, a, 5, 0}, {1, a, 5, 8}, {1, a, 5, 8, 0, 0}, {1, a, 5, 9, 0}, {1, a, 5, 9, 2, 2}, {1, a, 6}, {1, a, 9}, {1, a, 1<<32 - 2, 1}}
		plan := make([]int, 4000)
		for i := range plan {
			plan[i] = r.IntN(2 * len(vol))
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer done.Add(1)
			barrier()
			for _, p := range plan {
				if walking.Load() == 0 {
					return
				}
				id := vol[p%len(vol)]
				if p < len(vol) {
					if n := t.AddNode(id); n != nil {
						reg.put(n, key(id))
						for k := 3; k < len(id); k++ { // prefixes made on the way
							if q := t.GetNode(id[:k]); q != nil {
								reg.put(q, key(id[:k]))
							}
						}
						mut.Add(1)
					}
				} else if t.RemoveNode(id) {
					mut.Add(1)
				}
			}
		}()
	}
	paths := make([]string, walkers)
	for w := 0; w < walkers; w++ {
		w := w
		rounds := 6
		var start, end []uint32
		if r.IntN(2) == 0 {
			start = []uint32{1, uint32(r.IntN(regions * 10)), uint32(r.IntN(10))}
			end = []uint32{1, uint32(r.IntN(regions*10 + 10)), uint32(r.IntN(10))}
			if r.IntN(3) == 0 {
				end = nil
			}
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer walking.Add(-1)
			barrier()
			for k := 0; k < rounds; k++ {
				cur, prev := start, ""
				mem := make([]uint32, 0, 16) // the place where this walk is, one variable
				got := map[string]bool{}
				var sb strings.Builder
				for steps := 0; ; steps++ {
					n := t.GetNextNode(cur, end, false)
					if n == nil {
						break
					}
					q, ok := reg.get(n)
					for !ok { // the adder has not told us yet
						runtime.Gosched()
						over := done.Load() == int32(regions)
						if q, ok = reg.get(n); !ok && over {
							bad.Store("a walk was given a node that was never part of the tree")
							return
						}
					}
					if q <= key(cur) || prev != "" && q <= prev {
						bad.Store(fmt.Sprintf("a walk goes from %s to %s while others change the tree", showOID(cur), showOID(unkey(q))))
						return
					}
					if len(end) > 0 && q >= key(end) {
						bad.Store(fmt.Sprintf("a walk bounded by %s reaches %s", showOID(end), showOID(unkey(q))))
						return
					}
					if id, ok := oidOf(n); !ok || key(id) != q {
						bad.Store(fmt.Sprintf("the node %s is given by a walk, but its links say %s", showOID(unkey(q)), showOID(id)))
						return
					}
					got[q] = true
					prev, cur = q, append(mem[:0], unkey(q)...)
					fmt.Fprintf(&sb, "%x/", q)
					visits.Add(1)
					if steps > 100000 {
						bad.Store("a walk does not end")
						return
					}
				}
				for _, s := range stable {
					if s > key(start) && (len(end) == 0 || s < key(end)) && !got[s] {
						bad.Store(fmt.Sprintf("a walk over (%s, %s) skips %s, which stays in place", showOID(start), showOID(end), showOID(unkey(s))))
						return
					}
				}
				paths[w] += sb.String() + ";"
			}
		}()
	}
	wg.Wait()
	if b := bad.Load(); b != nil {
		c.Fail("%s", b)
	}
	if _, d := dump(t); d != "" {
		c.Fail("after all calls finished: %s", d)
	}
	c.EventN("concurrent-walks", walkers*6)
	c.EventN("visits", int(visits.Load()))
	c.EventN("mutations-during-walks", int(mut.Load()))
	for _, p := range paths {
		c.Sig(p)
	}
	c.Sample(func() string {
		return fmt.Sprintf("%d walkers, %d mutators, %d mutations, %d visits", walkers, regions, mut.Load(), visits.Load())
	})
}

// walkAndClear walks a tree that is cleared and filled again meanwhile.
func walkAndClear(c *mon.Case) {
	r := c.R
	t := oid.NewTree()
	universe := map[string]bool{}
	ids := pool(r, 6+r.IntN(20))
	for _, id := range ids {
		for k := 1; k <= len(id); k++ {
			universe[key(id[:k])] = true
		}
	}
	writers, walkers := 1+r.IntN(2), 1+r.IntN(3)
	var wg sync.WaitGroup
	var ready, walking atomic.Int32
	var bad atomic.Value
	var clears, visits atomic.Int64
	all := int32(writers + walkers)
	walking.Store(int32(walkers))
	barrier := func() {
		ready.Add(1)
		for ready.Load() < all {
			runtime.Gosched()
		}
	}
	for w := 0; w < writers; w++ {
		plan := make([]int, 3000)
		for i := range plan {
			plan[i] = r.IntN(len(ids) + 1 + len(ids)/8)
		}
		wg.Add(1)
		go func() {
			defer wg.Done()
			barrier()
			for _, p := range plan {
				if walking.Load() == 0 {
					return
				}
				if p < len(ids) {
					t.AddNode(ids[p])
				} else {
					t.Clear()
					clears.Add(1)
				}
			}
		}()
	}
	paths := make([]string, walkers)
	for w := 0; w < walkers; w++ {
		w := w
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer walking.Add(-1)
			barrier()
			var sb strings.Builder
			for k := 0; k < 12; k++ {
				var cur []uint32
				for steps := 0; ; steps++ {
					n := t.GetNextNode(cur, nil, false)
					if n == nil {
						break
					}
					id, ok := oidOf(n)
					if !ok || !universe[key(id)] {
						bad.Store(fmt.Sprintf("a walk is given %s by the links of a node, which was never added", showOID(id)))
						return
					}
					if key(id) <= key(cur) {
						bad.Store(fmt.Sprintf("a walk goes from %s to %s while others clear and fill the tree", showOID(cur), showOID(id)))
						return
					}
					cur = id
					fmt.Fprintf(&sb, "%x/", key(id))
					visits.Add(1)
				}
				sb.WriteByte(';')
			}
			paths[w] = sb.String()
		}()
	}
	wg.Wait()
	if b := bad.Load(); b != nil {
		c.Fail("%s", b)
	}
	if _, d := dump(t); d != "" {
		c.Fail("after all calls finished: %s", d)
	}
	c.EventN("walks-while-clearing", 12*walkers)
	c.EventN("clears-during-walks", int(clears.Load()))
	c.EventN("visits", int(visits.Load()))
	for _, p := range paths {
		c.Sig(p)
	}
}
