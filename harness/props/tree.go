package props

import (
	"encoding/binary"
	"fmt"
	"runtime"
	"sort"
	"strings"
	"time"

	"github.com/alexispb/mygosnmp/oid"

	"verif/harness/gen"
	"verif/harness/mon"
)

func init() {
	reg("C17", c17)
	reg("C18", c18)
}

// key is an order-preserving text of an OID: plain string comparison of keys
// is OID order and string prefixes (of whole sub-ids) are OID prefixes.
func key(id []uint32) string {
	b := make([]byte, 4*len(id))
	for i, s := range id {
		binary.BigEndian.PutUint32(b[4*i:], s)
	}
	return string(b)
}

func unkey(k string) []uint32 {
	id := make([]uint32, len(k)/4)
	for i := range id {
		id[i] = binary.BigEndian.Uint32([]byte(k[4*i:]))
	}
	return id
}

// model is the reference tree: the prefix-closed set of OIDs with the identity
// of each node, as far as it was handed out, and the data attached to it.
type model struct {
	nodes map[string]*mnode
}

type mnode struct {
	ptr  *oid.Node // nil: not handed out yet
	data interface{}
}

func newModel() *model { return &model{map[string]*mnode{}} }

func (m *model) add(id []uint32) (fresh bool) {
	if len(id) == 0 || m.nodes[key(id)] != nil {
		return false
	}
	for n := 1; n <= len(id); n++ {
		if k := key(id[:n]); m.nodes[k] == nil {
			m.nodes[k] = &mnode{}
		}
	}
	return true
}

func (m *model) remove(id []uint32) bool {
	k := key(id)
	if len(id) == 0 || m.nodes[k] == nil {
		return false
	}
	for q := range m.nodes {
		if strings.HasPrefix(q, k) {
			delete(m.nodes, q)
		}
	}
	return true
}

func (m *model) keys() []string {
	out := make([]string, 0, len(m.nodes))
	for k := range m.nodes {
		out = append(out, k)
	}
	sort.Strings(out)
	return out
}

// leaves returns the childless nodes in ascending order.
func (m *model) leaves() []string {
	ks := m.keys()
	var out []string
	for i, k := range ks {
		if i+1 == len(ks) || !strings.HasPrefix(ks[i+1], k) {
			out = append(out, k)
		}
	}
	return out
}

// next is GetNext by definition over the sorted leaves.
func next(leaves []string, start, end []uint32, include bool) (string, bool) {
	s, e := key(start), key(end)
	i := sort.SearchStrings(leaves, s)
	if i < len(leaves) && leaves[i] == s && !include {
		i++
	}
	// start itself sorts before every extension of it, so i is the least
	// candidate; only the end bound remains
	if i < len(leaves) && (e == "" || leaves[i] < e) {
		return leaves[i], true
	}
	return "", false
}

// oidOf reads the OID of a node through its links.
func oidOf(n *oid.Node) ([]uint32, bool) {
	var rev []uint32
	for steps := 0; ; steps++ {
		up := n.Parent
		if up == nil {
			break
		}
		if steps > 100000 {
			return nil, false
		}
		rev = append(rev, n.Subid)
		n = up
	}
	for i, j := 0, len(rev)-1; i < j; i, j = i+1, j-1 {
		rev[i], rev[j] = rev[j], rev[i]
	}
	return rev, true
}

// audit compares the complete structure of the tree with the model: set of
// nodes, links, order, identity and data. It returns a description of the
// first disagreement.
func (m *model) audit(t *oid.Tree) string {
	root := t.GetNode(nil)
	if root == nil {
		return "GetNode(empty OID) = nil, want the root"
	}
	if r2 := t.GetNode([]uint32{}); r2 != root {
		return "GetNode(nil) and GetNode([]uint32{}) return different roots"
	}
	seen := 0
	var bad string
	var walk func(n *oid.Node, id []uint32)
	walk = func(n *oid.Node, id []uint32) {
		for i, ch := range n.Children {
			if bad != "" {
				return
			}
			if ch == nil {
				bad = fmt.Sprintf("child %d of %s is nil", i, showOID(id))
				return
			}
			cid := append(append([]uint32(nil), id...), ch.Subid)
			if i > 0 && n.Children[i-1].Subid >= ch.Subid {
				bad = fmt.Sprintf("children of %s are not strictly ascending: %d then %d", showOID(id), n.Children[i-1].Subid, ch.Subid)
				return
			}
			if ch.Parent != n {
				bad = fmt.Sprintf("the parent link of %s does not point to its parent", showOID(cid))
				return
			}
			e := m.nodes[key(cid)]
			if e == nil {
				bad = fmt.Sprintf("the tree holds %s, which was not added or was removed", showOID(cid))
				return
			}
			if e.ptr == nil {
				e.ptr = ch
			} else if e.ptr != ch {
				bad = fmt.Sprintf("the node at %s is not the one returned before", showOID(cid))
				return
			}
			if e.data != ch.Data {
				bad = fmt.Sprintf("the node at %s carries data %v, want %v", showOID(cid), ch.Data, e.data)
				return
			}
			if seen++; seen > len(m.nodes) {
				bad = "the tree holds more nodes than were added"
				return
			}
			walk(ch, cid)
		}
	}
	walk(root, nil)
	if bad == "" && seen != len(m.nodes) {
		found := map[string]bool{}
		var mark func(n *oid.Node, id []uint32)
		mark = func(n *oid.Node, id []uint32) {
			for _, ch := range n.Children {
				cid := append(append([]uint32(nil), id...), ch.Subid)
				found[key(cid)] = true
				mark(ch, cid)
			}
		}
		mark(root, nil)
		for _, k := range m.keys() {
			if !found[k] {
				return fmt.Sprintf("%s is missing from the tree", showOID(unkey(k)))
			}
		}
	}
	return bad
}

// auditLeaves checks a leaf iteration. The slices are kept until the end.
func (m *model) auditLeaves(t *oid.Tree) string {
	type lv struct {
		id   []uint32
		copy string
		node *oid.Node
	}
	var got []lv
	t.ForRangeLeaves(func(id []uint32, n *oid.Node) { got = append(got, lv{id, key(id), n}) })
	want := m.leaves()
	for i, g := range got {
		if key(g.id) != g.copy {
			return fmt.Sprintf("the OID slice given for leaf %s changed to %s after the callback returned", showOID(unkey(g.copy)), showOID(g.id))
		}
		if i >= len(want) {
			return fmt.Sprintf("leaf %s reported, but there are only %d leaves", showOID(g.id), len(want))
		}
		if g.copy != want[i] {
			return fmt.Sprintf("leaf number %d is reported as %s, want %s", i, showOID(g.id), showOID(unkey(want[i])))
		}
		if e := m.nodes[g.copy]; e.ptr != nil && e.ptr != g.node || g.node == nil {
			return fmt.Sprintf("leaf %s is reported with another node", showOID(g.id))
		} else if e.data != g.node.Data {
			return fmt.Sprintf("leaf %s is reported with data %v, want %v", showOID(g.id), g.node.Data, e.data)
		}
	}
	if len(got) != len(want) {
		return fmt.Sprintf("leaf %s is not reported", showOID(unkey(want[len(got)])))
	}
	// overwriting and appending to one reported slice leaves the others alone
	for i, g := range got {
		_ = append(g.id, 77)
		for j := range g.id[:cap(g.id)] {
			g.id[:cap(g.id)][j] = 0xDDDD0000
		}
		for _, h := range got[i+1 : min(i+3, len(got))] {
			if key(h.id) != h.copy {
				return fmt.Sprintf("the OID slice given for leaf %s shares memory with that of %s", showOID(unkey(h.copy)), showOID(unkey(g.copy)))
			}
		}
	}
	return ""
}

// treeRun drives a tree and the model together.
type treeRun struct {
	c    *mon.Case
	t    *oid.Tree
	m    *model
	hist []string
	tag  int
	ids  [][]uint32
	seen map[*oid.Node]struct{} // nodes handed out so far, kept alive
}

func newTreeRun(c *mon.Case) *treeRun { return &treeRun{c: c, t: oid.NewTree(), m: newModel()} }

func (x *treeRun) fail(format string, args ...interface{}) {
	h := x.hist
	if len(h) > 60 {
		h = append([]string{fmt.Sprintf("...(%d earlier)", len(h)-60)}, h[len(h)-60:]...)
	}
	x.c.Fail("%s; history: %s", fmt.Sprintf(format, args...), strings.Join(h, " "))
}

// argBuf holds arguments the way a caller does who keeps one variable for the
// OID it is at: the same memory, with other contents in the next call.
type argBuf struct{ mem [2][]uint32 }

func (b *argBuf) arg(r gen.R, which int, id []uint32) []uint32 {
	switch r.IntN(4) {
	case 0:
		return id
	case 1:
		return append([]uint32(nil), id...)
	}
	if cap(b.mem[which]) < len(id) || b.mem[which] == nil {
		b.mem[which] = make([]uint32, 0, len(id)+16)
	}
	return append(b.mem[which][:0], id...)
}

func bufOf(c *mon.Case) *argBuf {
	b, ok := c.Any.(*argBuf)
	if !ok {
		b = &argBuf{}
		c.Any = b
	}
	return b
}

func (x *treeRun) check(d string) {
	if d != "" {
		x.fail("%s", d)
	}
}

func (x *treeRun) add(id []uint32) {
	x.hist = append(x.hist, "add"+showOID(id))
	var n *oid.Node
	if x.c.R.IntN(2) == 0 {
		arg := bufOf(x.c).arg(x.c.R, 0, id)
		n = x.t.AddNode(arg)
		if refCompare(arg, id) != 0 {
			x.fail("AddNode changed its argument")
		}
	} else {
		arg := append(make([]uint32, 0, len(id)+3), id...)
		full := arg[:cap(arg)]
		for i := len(id); i < len(full); i++ {
			full[i] = 0xC0FFEE
		}
		n = x.t.AddNode(arg)
		for i := range full { // the tree must not keep or change the argument
			if i < len(id) && full[i] != id[i] || i >= len(id) && full[i] != 0xC0FFEE {
				x.fail("AddNode changed its argument")
			}
			full[i] = 0xBAD
		}
	}
	if x.m.add(id) {
		x.c.Event("added")
		if n == nil {
			x.fail("AddNode(%s) = nil for an absent OID", showOID(id))
		}
		e := x.m.nodes[key(id)]
		e.ptr = n
		if _, old := x.seen[n]; old {
			x.fail("AddNode(%s) returns a node that was handed out before for an OID that was removed", showOID(id))
		}
		if x.seen == nil {
			x.seen = map[*oid.Node]struct{}{}
		}
		x.seen[n] = struct{}{}
		if n.Data != nil {
			x.fail("AddNode(%s) returns a node that already carries data %v", showOID(id), n.Data)
		}
		if x.c.R.IntN(2) == 0 {
			x.tag++
			e.data = fmt.Sprintf("data%d", x.tag)
			n.Data = e.data
		}
	} else {
		x.c.Event("add-refused")
		if n != nil {
			x.fail("AddNode(%s) returns a node for a present or empty OID", showOID(id))
		}
	}
}

func (x *treeRun) remove(id []uint32) {
	x.hist = append(x.hist, "remove"+showOID(id))
	arg := bufOf(x.c).arg(x.c.R, 0, id)
	before := len(x.m.nodes)
	got, want := x.t.RemoveNode(arg), x.m.remove(id)
	if refCompare(arg, id) != 0 {
		x.fail("RemoveNode changed its argument")
	}
	if got != want {
		x.fail("RemoveNode(%s) = %v, want %v", showOID(id), got, want)
	}
	if want {
		x.c.Event("removed")
		if before-len(x.m.nodes) > 1 {
			x.c.Event("subtrees-removed")
		}
	} else {
		x.c.Event("remove-refused")
	}
}

func (x *treeRun) clear() {
	x.hist = append(x.hist, "clear")
	x.t.Clear()
	x.m = newModel()
	x.c.Event("cleared")
}

func (x *treeRun) get(id []uint32) {
	n := x.t.GetNode(bufOf(x.c).arg(x.c.R, 0, id))
	x.c.Event("gets")
	if len(id) == 0 {
		if n == nil || n.Parent != nil {
			x.fail("GetNode(empty) does not return the root")
		}
		return
	}
	e := x.m.nodes[key(id)]
	if e == nil {
		if n != nil {
			x.fail("GetNode(%s) returns a node, want nil", showOID(id))
		}
		return
	}
	if n == nil {
		x.fail("GetNode(%s) = nil, want the node", showOID(id))
	}
	if e.ptr == nil {
		e.ptr = n
	} else if e.ptr != n {
		x.fail("GetNode(%s) returns another node than before", showOID(id))
	}
	if e.data != n.Data {
		x.fail("GetNode(%s) has data %v, want %v", showOID(id), n.Data, e.data)
	}
	if n.Subid != id[len(id)-1] {
		x.fail("GetNode(%s) has sub-id %d", showOID(id), n.Subid)
	}
}

func (x *treeRun) state() string { return strings.Join(x.m.keys(), "|") }

// cluster is a run of siblings with few or no gaps, some of them with a child.
func cluster(r gen.R, n int) [][]uint32 {
	base := gen.OIDn(r, r.IntN(3))
	first := gen.Pick(r, []uint32{0, 1, 1, 5, 250, 1 << 16, 1<<31 - 4, ^uint32(0) - uint32(n)})
	step := gen.Pick(r, []uint32{1, 1, 1, 2, 16})
	if uint64(first)+uint64(step)*uint64(n) > 1<<32-1 {
		step = 1
	}
	var out [][]uint32
	for i := 0; i < n; i++ {
		id := append(append([]uint32(nil), base...), first+uint32(i)*step)
		out = append(out, id)
		if r.IntN(12) == 0 {
			out = append(out, append(append([]uint32(nil), id...), uint32(r.IntN(3))))
		}
	}
	return out
}

// pool is a set of related OIDs a random history draws from.
func pool(r gen.R, n int) [][]uint32 {
	if r.IntN(7) == 0 {
		return cluster(r, n)
	}
	alpha := []uint32{gen.U32(r), gen.U32(r), uint32(r.IntN(4)), 1 << 31, 1<<32 - 1, 0}
	alpha = alpha[:2+r.IntN(5)]
	maxLen := gen.Pick(r, []int{2, 3, 4, 6, 10})
	out := [][]uint32{{}}
	known := r.IntN(5) == 0 // a MIB of well-known objects
	for len(out) < n {
		if known && r.IntN(2) == 0 {
			out = append(out, gen.Known(r))
			continue
		}
		switch r.IntN(5) {
		case 0:
			p := gen.Pick(r, out)
			out = append(out, append(append([]uint32(nil), p...), gen.Pick(r, alpha)))
		case 1:
			p := gen.Pick(r, out)
			if len(p) > 0 {
				q := append([]uint32(nil), p...)
				q[len(q)-1] += gen.Pick(r, []uint32{1, ^uint32(0), 2, 1 << 31, 256, 1 << 16})
				out = append(out, q)
			}
		case 2:
			out = append(out, gen.OIDn(r, r.IntN(maxLen+1)))
		default:
			id := make([]uint32, r.IntN(maxLen+1))
			for i := range id {
				id[i] = gen.Pick(r, alpha)
			}
			out = append(out, id)
		}
	}
	return out
}

// veryDeep runs a tree with paths of thousands of nodes against the definition.
func veryDeep(c *mon.Case) {
	n := gen.Pick(c.R, []int{1000, 1024, 1025, 2049, 4096, 5000, 8193, 10001}) + c.R.IntN(5)
	id := gen.OIDn(c.R, n)
	t := oid.NewTree()
	deep := t.AddNode(id)
	if deep == nil || t.AddNode(id) != nil || t.GetNode(id) != deep {
		c.Fail("the node at a path of %d sub-ids is not added, or not found", n)
	}
	k := n
	for x := deep; x.Parent != nil; x = x.Parent {
		if k--; k < 0 || x.Subid != id[k] || len(x.Parent.Children) != 1 || x.Parent.Children[0] != x {
			c.Fail("the node at depth %d of %d does not agree with its OID", k, n)
		}
	}
	if k != 0 {
		c.Fail("a path of %d sub-ids leads to the root after %d nodes", n, n-k)
	}
	leaves := [][]uint32{id}
	for j := 0; j < 3; j++ { // branches, most of them at great depth
		at := n - 1 - c.R.IntN(n/2)
		if j == 2 {
			at = c.R.IntN(n)
		}
		br := append([]uint32(nil), id[:at]...)
		br = append(br, id[at]+1+uint32(c.R.IntN(2))*uint32(1<<32-2))
		br = append(br, gen.OIDn(c.R, c.R.IntN(1500))...)
		if t.AddNode(br) == nil {
			continue // another branch got there first
		}
		leaves = append(leaves, br)
	}
	sort.Slice(leaves, func(a, b int) bool { return refCompare(leaves[a], leaves[b]) < 0 })
	all := leaves[:0:0]
	for i, l := range leaves { // a branch may lead on from another
		if i+1 < len(leaves) && len(l) < len(leaves[i+1]) && refCompare(l, leaves[i+1][:len(l)]) == 0 {
			continue
		}
		all = append(all, l)
	}
	leaves = all
	if len(leaves) == 0 {
		c.Error("no leaves")
	}
	i := 0
	t.ForRangeLeaves(func(l []uint32, nd *oid.Node) {
		if i >= len(leaves) || refCompare(l, leaves[i]) != 0 || t.GetNode(l) != nd {
			c.Fail("leaf %d of a tree %d deep has %d sub-ids and is not the one by definition", i, n, len(l))
		}
		i++
	})
	if i != len(leaves) {
		c.Fail("the iteration of a tree %d deep reports %d leaves, want %d", n, i, len(leaves))
	}
	for j := 0; j < 60; j++ {
		s := gen.Pick(c.R, leaves)
		var e []uint32
		switch c.R.IntN(4) {
		case 0:
			s = s[:c.R.IntN(len(s)+1)]
		case 1:
			s = append(append([]uint32(nil), s...), uint32(c.R.IntN(3)))
		case 2:
			s = relatedOID(c.R, s)
		}
		if c.R.IntN(2) == 0 {
			e = gen.Pick(c.R, leaves)
			if c.R.IntN(2) == 0 {
				e = e[:1+c.R.IntN(len(e))]
			}
		}
		incl := c.R.IntN(2) == 0
		var want *oid.Node
		for _, l := range leaves {
			if cmp := refCompare(l, s); (cmp > 0 || cmp == 0 && incl) && (len(e) == 0 || refCompare(l, e) < 0) {
				want = t.GetNode(l)
				break
			}
		}
		if got := t.GetNextNode(s, e, incl); got != want {
			c.Fail("in a tree %d deep, GetNextNode from an OID of %d sub-ids to one of %d (include %v): nil is %v, want nil is %v", n, len(s), len(e), incl, got == nil, want == nil)
		}
		c.Event("very-deep-queries")
	}
	at := 1 + c.R.IntN(n-1)
	if !t.RemoveNode(id[:at]) || t.GetNode(id) != nil || t.GetNode(id[:at]) != nil || t.GetNode(id[:at-1]) == nil || t.RemoveNode(id) {
		c.Fail("after removing the node at depth %d of %d, the tree does not hold what it should", at, n)
	}
	c.Sig("very-deep", c.Index, n)
}

func c17(run *mon.Run) {
	run.Rule("Histories of AddNode, RemoveNode, Clear, GetNode and Data writes run on the tree and on a model set with node identities; after each step the whole structure, all queries and the leaf iteration are compared. Exhaustive for short histories over small OID sets, random for long ones, with wide, deep and boundary sub-ids. Non-trivial: a step that leaves a non-empty tree; distinct by resulting set.")
	full := func(x *treeRun, universe [][]uint32) {
		x.check(x.m.audit(x.t))
		for _, id := range universe {
			x.get(id)
		}
		x.check(x.m.auditLeaves(x.t))
		x.check(x.m.audit(x.t))
		x.c.Event("audits")
		if len(x.m.nodes) > 0 {
			x.c.Sig(x.state())
		}
	}
	exhaustive := func(name string, ids [][]uint32, length int) {
		nops := 2*len(ids) + 1
		total := 1
		for i := 0; i < length; i++ {
			total *= nops
		}
		per := total / nops / nops
		run.Cases(name, nops*nops, func(c *mon.Case) {
			for k := 0; k < per; k++ {
				x := newTreeRun(c)
				for i, v := 0, c.Index*per+k; i < length; i++ {
					op := v % nops
					v /= nops
					switch {
					case op < len(ids):
						x.add(ids[op])
					case op < 2*len(ids):
						x.remove(ids[op-len(ids)])
					default:
						x.clear()
					}
					if i >= length-2 {
						full(x, ids)
					}
				}
			}
		})
	}
	exhaustive("exhaustive-depth2", allOIDs([]uint32{1, 2}, 2), run.N(4, 5))
	exhaustive("exhaustive-depth3", [][]uint32{{}, {5}, {5, 1}, {5, 1, 9}, {5, 1, 0}, {4294967295}, {0}}, run.N(4, 5))
	exhaustive("exhaustive-width", [][]uint32{{1}, {2}, {3}, {1 << 31}, {1<<32 - 1}}, run.N(5, 6))
	// every insertion and removal order of a few siblings and nested nodes
	sets := [][][]uint32{
		{{1}, {2}, {3}, {4}, {5}, {6}},
		{{1}, {1, 1}, {1, 2}, {2}, {2, 1}, {3}},
		{{0}, {1 << 31}, {1<<31 - 1}, {1<<32 - 1}, {1, 0}, {1, 1<<32 - 1}},
		{{7, 7, 7, 7}, {7, 7, 7, 8}, {7, 7, 8}, {7, 6}, {8}, {7, 7, 7, 7, 0}},
	}
	run.Cases("all-orders", len(sets)*720, func(c *mon.Case) {
		set := sets[c.Index/720]
		x := newTreeRun(c)
		for _, i := range nthPerm(c.Index%720, 6) {
			x.add(set[i])
			x.check(x.m.audit(x.t))
		}
		full(x, set)
		for _, i := range nthPerm(c.R.IntN(720), 6) {
			x.remove(set[i])
			full(x, set)
		}
	})
	run.Cases("random-short", run.N(30000, 800000), func(c *mon.Case) {
		x := newTreeRun(c)
		ids := pool(c.R, 4+c.R.IntN(20))
		addBias := 1 + c.R.IntN(4)
		for k := 5 + c.R.IntN(40); k > 0; k-- {
			id := gen.Pick(c.R, ids)
			switch p := c.R.IntN(20); {
			case p == 0:
				x.clear()
			case p < 2:
				x.get(id)
			case p == 2: // change data of an existing node through GetNode
				if n := x.t.GetNode(id); n != nil && len(id) > 0 {
					x.tag++
					n.Data = x.tag
					if e := x.m.nodes[key(id)]; e != nil {
						e.data = x.tag
					}
				}
			case c.R.IntN(addBias+1) > 0:
				x.add(id)
			default:
				x.remove(id)
			}
			x.check(x.m.audit(x.t))
			if c.R.IntN(4) == 0 {
				full(x, ids)
			}
		}
		full(x, ids)
		c.Sample(func() string { return trunc(strings.Join(x.hist, " "), 400) })
	})
	// sibling runs that are complete, or lack a few members, at either end
	run.Cases("clusters", run.N(3000, 60000), func(c *mon.Case) {
		x := newTreeRun(c)
		ids := cluster(c.R, gen.Pick(c.R, []int{4, 8, 9, 10, 12, 16, 17, 20, 33, 64, 65}))
		n := len(ids)
		skip := map[int]bool{}
		for k := c.R.IntN(4); k > 0; k-- {
			skip[gen.Pick(c.R, []int{0, 1, n / 2, n - 2, n - 1, c.R.IntN(n)})] = true
		}
		order := c.R.Perm(n)
		if c.R.IntN(2) == 0 {
			sort.Ints(order)
		}
		for _, i := range order {
			if !skip[i] {
				x.add(ids[i])
				x.check(x.m.audit(x.t))
			}
		}
		full(x, ids)
		for k := 0; k < 30; k++ {
			i := c.R.IntN(n)
			switch c.R.IntN(6) {
			case 0:
				i = n - 1 - c.R.IntN(3)
			case 1:
				i = c.R.IntN(3)
			}
			i = max(0, i)
			if x.m.nodes[key(ids[i])] == nil {
				x.add(ids[i])
			} else if c.R.IntN(2) == 0 {
				x.remove(ids[i])
				if c.R.IntN(2) == 0 {
					x.add(ids[i])
				}
			}
			x.check(x.m.audit(x.t))
			x.get(gen.Pick(c.R, ids))
		}
		full(x, ids)
	})
	// several trees side by side, with every kind of query in between
	run.Cases("two-trees", run.N(6000, 150000), func(c *mon.Case) {
		xs := []*treeRun{newTreeRun(c), newTreeRun(c)}
		ids := pool(c.R, 4+c.R.IntN(12))
		for k := 10 + c.R.IntN(40); k > 0; k-- {
			x := xs[c.R.IntN(2)]
			id := gen.Pick(c.R, ids)
			switch c.R.IntN(10) {
			case 0:
				if c.R.IntN(3) == 0 {
					x.clear()
				}
			case 1, 2:
				x.t.GetNextNode(bufOf(c).arg(c.R, 0, id), gen.Pick(c.R, ids), c.R.IntN(2) == 0)
			case 3:
				x.t.ForRangeLeaves(func([]uint32, *oid.Node) {})
			case 4, 5:
				x.remove(id)
			case 6:
				x.get(id)
			default:
				x.add(id)
			}
			for _, y := range xs {
				y.check(y.m.audit(y.t))
			}
		}
		full(xs[0], ids)
		full(xs[1], ids)
	})
	run.Cases("large", run.N(60, 600), func(c *mon.Case) {
		x := newTreeRun(c)
		n := 200 + c.R.IntN(1500)
		ids := pool(c.R, n)
		for _, id := range ids {
			x.add(id)
		}
		full(x, ids)
		for k := 0; k < 200; k++ {
			if c.R.IntN(2) == 0 {
				x.remove(gen.Pick(c.R, ids))
			} else {
				x.add(gen.Pick(c.R, ids))
			}
			if k%40 == 0 {
				full(x, ids)
			}
		}
		full(x, ids)
		x.clear()
		full(x, ids)
	})
	run.Cases("wide", run.N(60, 400), func(c *mon.Case) { // many siblings, in several orders
		x := newTreeRun(c)
		n := gen.Pick(c.R, []int{3, 15, 16, 17, 31, 32, 33, 64, 100, 127, 128, 129, 255, 256, 257, 512, 1000, 1024, 1025, 3000})
		perm := c.R.Perm(n)
		switch c.Index % 3 {
		case 0:
			sort.Ints(perm)
		case 1:
			sort.Sort(sort.Reverse(sort.IntSlice(perm)))
		}
		base := gen.OIDn(c.R, c.R.IntN(3))
		step := gen.Pick(c.R, []uint32{1, 2, 1 << 20})
		sub := func(i int) []uint32 { return append(append([]uint32(nil), base...), uint32(i)*step) }
		var ids [][]uint32
		for i := 0; i < n; i++ {
			ids = append(ids, sub(i))
		}
		for k, i := range perm {
			x.add(sub(i))
			if k%97 == 0 {
				x.check(x.m.audit(x.t))
			}
		}
		full(x, ids)
		for k, i := range c.R.Perm(n)[:n/2] {
			x.remove(sub(i))
			if k%97 == 0 {
				x.check(x.m.audit(x.t))
			}
		}
		full(x, ids)
		c.Sig("wide", n, c.Index)
	})
	run.Cases("deep", run.N(300, 3000), func(c *mon.Case) {
		x := newTreeRun(c)
		n := gen.Pick(c.R, []int{64, 126, 127, 128, 129, 130, 200, 255, 256, 257, 400})
		id := gen.OIDn(c.R, n)
		if c.R.IntN(2) == 0 {
			x.add(id[:c.R.IntN(n)])
		}
		x.add(id)
		var ids [][]uint32
		for i := 0; i <= n; i += 1 + c.R.IntN(9) {
			ids = append(ids, id[:i])
		}
		ids = append(ids, id, append(append([]uint32(nil), id...), 1), relatedOID(c.R, id))
		full(x, ids)
		for k := 0; k < 4; k++ {
			y := relatedOID(c.R, id)
			ids = append(ids, y)
			x.add(y)
			full(x, ids)
		}
		x.remove(id[:c.R.IntN(n+1)])
		full(x, ids)
		x.add(id)
		full(x, ids)
	})
	run.Cases("very-deep", run.N(24, 200), func(c *mon.Case) { veryDeep(c) })
	// a leaf callback that panics, and a caller who recovers
	run.Cases("callback-panics", run.N(300, 5000), func(c *mon.Case) {
		x := newTreeRun(c)
		ids := pool(c.R, 3+c.R.IntN(10))
		for _, id := range ids {
			x.add(id)
		}
		for k := 0; k < 3; k++ {
			i, at, ended := 0, c.R.IntN(len(x.m.leaves())+1), make(chan interface{})
			go func() { // ends by a panic, or with its goroutine
				defer func() { ended <- recover() }()
				x.t.ForRangeLeaves(func([]uint32, *oid.Node) {
					if i == at && k == 2 {
						runtime.Goexit()
					} else if i == at {
						panic("the caller's own")
					}
					i++
				})
			}()
			if p := <-ended; p != nil && p != "the caller's own" {
				x.fail("a panic of the leaf callback arrives as %v", p)
			}
			x.add(gen.Pick(c.R, ids))
			x.remove(gen.Pick(c.R, ids))
			full(x, ids)
			c.Event("panicking-callbacks")
		}
	})
	run.Cases("huge", run.N(len(hugeSizes), 6*len(hugeSizes)), func(c *mon.Case) { huge(c, hugeSizes[c.Index%len(hugeSizes)]-c.R.IntN(300), "structure") })
	run.Cases("rounds", run.N(500, 8000), func(c *mon.Case) {
		rounds(c, func(x *treeRun, sub func(...uint32) []uint32) {
			ids := [][]uint32{sub(7), sub(7, 0), sub(7, 1), sub(7, 2), sub(7, 3), sub(7, 9), sub(8), sub(8, 9), nil}
			if c.Index%2 == 0 {
				x.get(sub(7))
				x.check(x.m.auditLeaves(x.t))
				x.get(sub(7))
				return
			}
			full(x, ids)
		})
	})
	// a tree left alone stays as it is
	run.Cases("left-alone", run.N(16, 64), func(c *mon.Case) {
		var xs []*treeRun
		for k := 0; k < 40; k++ {
			x := newTreeRun(c)
			ids := pool(c.R, 3+c.R.IntN(10))
			for j := 5 + c.R.IntN(25); j > 0; j-- {
				switch p := c.R.IntN(12); {
				case p == 0:
					x.clear()
				case p < 6:
					x.remove(gen.Pick(c.R, ids))
				default:
					x.add(gen.Pick(c.R, ids))
				}
			}
			x.ids = ids
			xs = append(xs, x)
		}
		time.Sleep(gen.Pick(c.R, []time.Duration{1200, 1500, 2200}) * time.Millisecond)
		for _, x := range xs {
			full(x, x.ids)
		}
		c.EventN("trees-left-alone", len(xs))
	})
	// a leaf callback that looks around in its tree and in another one
	run.Cases("callback-lookups", run.N(400, 8000), func(c *mon.Case) {
		x, y := newTreeRun(c), newTreeRun(c)
		ids := pool(c.R, 3+c.R.IntN(10))
		for _, id := range ids {
			x.add(id)
		}
		leaves := x.m.leaves()
		i := 0
		x.t.ForRangeLeaves(func(id []uint32, n *oid.Node) {
			if i >= len(leaves) || key(id) != leaves[i] {
				x.fail("leaf %d of the iteration is %s, want one of %s", i, showOID(id), showLeaves(leaves))
			}
			if g := x.t.GetNode(id); g != n {
				x.fail("GetNode(%s) called by the leaf callback returns another node", showOID(id))
			}
			next := x.t.GetNextNode(id, nil, false)
			if i++; (next == nil) != (i == len(leaves)) {
				x.fail("GetNextNode(%s) called by the leaf callback: nil is %v", showOID(id), next == nil)
			}
			if next != nil {
				if nid, _ := oidOf(next); key(nid) != leaves[i] {
					x.fail("GetNextNode(%s) called by the leaf callback gives %s, want %s", showOID(id), showOID(nid), showOID(unkey(leaves[i])))
				}
			}
			if c.R.IntN(4) == 0 {
				x.check(x.m.auditLeaves(x.t))
			}
			y.add(id)
			if c.R.IntN(4) == 0 {
				y.remove(gen.Pick(c.R, ids))
			}
			c.Event("lookups-in-callbacks")
		})
		full(x, ids)
		full(y, ids)
	})
	run.Need("trees-left-alone", 300)
	run.Need("lookups-in-callbacks", 1000)
	run.Need("panicking-callbacks", 600)
	run.Need("added", 100000)
	run.Need("add-refused", 10000)
	run.Need("subtrees-removed", 5000)
	run.Need("remove-refused", 10000)
	run.Need("cleared", 1000)
	run.Need("audits", 50000)
}

// rounds calls look after every "round" effective changes of a tree, for many
// round numbers, with or without emptying the tree in between, and in two trees
// with equally many changes behind them. Between two looks the node sub(7)
// appears, disappears or is replaced by another.
func rounds(c *mon.Case, look func(x *treeRun, sub func(...uint32) []uint32)) {
	r := c.R
	xs := []*treeRun{newTreeRun(c), newTreeRun(c)}
	base := gen.OIDn(r, r.IntN(3))
	sub := func(tail ...uint32) []uint32 { return append(append([]uint32(nil), base...), tail...) }
	round := gen.Pick(r, []int{1, 2, 3, 7, 8, 15, 16, 31, 32, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 511, 512, 1000, 1024, 2048})
	if c.Index%60 == 0 {
		round = gen.Pick(r, []int{65535, 65536, 65537, 32768})
	}
	style := r.IntN(4)
	x := xs[0]
	var extra []uint32
	serial := uint32(1000)
	flip := func() {
		serial++
		if extra != nil && x.m.nodes[key(extra)] != nil {
			x.remove(extra)
			extra = nil
		} else {
			extra = sub(serial % (1 << 30))
			x.add(extra)
		}
	}
	for turn := 0; turn < 4; turn++ {
		for k := 1; k <= round; k++ {
			switch {
			case k == 1 && style == 1 && turn > 0:
				x.clear()
			case k < round:
				flip()
			case x.m.nodes[key(sub(7))] != nil:
				x.remove(sub(7))
			default:
				x.add(sub(7, uint32(turn)))
			}
		}
		look(x, sub)
		c.Event("round-looks")
		switch style {
		case 2: // the other tree, with its own changes
			x = xs[(turn+1)%2]
			extra = nil
		case 3: // emptied, then as many changes as before, twice
			x.clear()
			x.add(sub(7, 9))
			x.add(sub(70+uint32(turn), 1))
			look(x, sub)
			x.clear()
			x.add(sub(8, 9))
			x.add(sub(71+uint32(turn), 1))
			look(x, sub)
			x.clear()
			look(x, sub)
		}
	}
	c.Sig("rounds", round, style, showOID(base))
}

func nthPerm(k, n int) []int {
	items := make([]int, n)
	for i := range items {
		items[i] = i
	}
	f := 1
	for i := 2; i < n; i++ {
		f *= i
	}
	var out []int
	for i := n - 1; i >= 0; i-- {
		j := k / f
		k %= f
		out = append(out, items[j])
		items = append(items[:j], items[j+1:]...)
		if i > 0 {
			f /= i
		}
	}
	return out
}

// smallTrees enumerates the prefix-closed sets over an alphabet up to a depth
// by their leaf lists.
func smallTrees(alphabet []uint32, depth int) [][][]uint32 {
	// shapes(d): list of leaf lists of a subtree of height <= d below a node
	var shapes func(d int) [][][]uint32
	shapes = func(d int) [][][]uint32 {
		if d == 0 {
			return [][][]uint32{{}}
		}
		sub := shapes(d - 1)
		out := [][][]uint32{{}}
		for _, s := range alphabet {
			var next [][][]uint32
			for _, o := range out {
				next = append(next, o)
				for _, q := range sub {
					t := append([][]uint32(nil), o...)
					if len(q) == 0 {
						t = append(t, []uint32{s})
					}
					for _, l := range q {
						t = append(t, append([]uint32{s}, l...))
					}
					next = append(next, t)
				}
			}
			out = next
		}
		return out
	}
	return shapes(depth)
}

func c18(run *mon.Run) {
	run.Rule("GetNextNode on all trees over small alphabets and on random, deep, wide and boundary trees, for start and end bounds that are nodes, prefixes, extensions, neighbours or unrelated and in any order, with and without include; the node is compared with the definition over the sorted leaves of a model. Non-trivial: a query on a non-empty tree; distinct by (leaves, start, end, include).")
	ask := func(c *mon.Case, t *oid.Tree, leaves []string, ptr map[string]*oid.Node, s, e []uint32, inc bool) {
		b := bufOf(c)
		got := t.GetNextNode(b.arg(c.R, 0, s), b.arg(c.R, 1, e), inc)
		want, ok := next(leaves, s, e, inc)
		switch {
		case got == nil && ok:
			c.Fail("GetNextNode(%s, %s, %v) = nil, want %s; leaves %s", showOID(s), showOID(e), inc, showOID(unkey(want)), showLeaves(leaves))
		case got != nil && !ok:
			id, _ := oidOf(got)
			c.Fail("GetNextNode(%s, %s, %v) = %s, want nil; leaves %s", showOID(s), showOID(e), inc, showOID(id), showLeaves(leaves))
		case got != nil && got != ptr[want]:
			id, _ := oidOf(got)
			c.Fail("GetNextNode(%s, %s, %v) = %s, want %s; leaves %s", showOID(s), showOID(e), inc, showOID(id), showOID(unkey(want)), showLeaves(leaves))
		}
		if ok {
			c.Event("found")
		} else {
			c.Event("none")
		}
	}
	build := func(c *mon.Case, ids [][]uint32) (t *oid.Tree, leaves []string, ptr map[string]*oid.Node) {
		t = oid.NewTree()
		m := newModel()
		for _, id := range ids {
			t.AddNode(id)
			m.add(id)
		}
		return t, m.leaves(), pointers(c, t, m)
	}
	exhaustive := func(name string, alphabet []uint32, depth int, bounds [][]uint32) {
		trees := smallTrees(alphabet, depth)
		run.Cases(name, len(trees), func(c *mon.Case) {
			t, leaves, ptr := build(c, trees[c.Index])
			for _, s := range bounds {
				for _, e := range bounds {
					ask(c, t, leaves, ptr, s, e, false)
					ask(c, t, leaves, ptr, s, e, true)
				}
			}
			if len(leaves) > 0 {
				for _, s := range bounds {
					c.Sig(c.Index, showOID(s))
				}
			}
			c.Sample(func() string {
				return fmt.Sprintf("leaves %s x %d^2 bounds", showLeaves(leaves), len(bounds))
			})
		})
	}
	exhaustive("exhaustive-2x3", []uint32{2, 4}, 3, allOIDs([]uint32{1, 2, 3, 4, 5}, 3))
	exhaustive("exhaustive-3x2", []uint32{0, 1 << 31, 1<<32 - 1}, 2, allOIDs([]uint32{0, 1, 1 << 31, 1<<32 - 2, 1<<32 - 1}, run.N(2, 3)))
	exhaustive("exhaustive-1x6", []uint32{7}, 6, append(allOIDs([]uint32{6, 7, 8}, 4), allOIDs([]uint32{7, 8}, 7)...))
	exhaustive("exhaustive-4x1", []uint32{1, 2, 3, 4}, 1, allOIDs([]uint32{0, 1, 2, 3, 4, 5}, 2))
	exhaustive("exhaustive-2x2-deep-bounds", []uint32{1, 2}, 2, allOIDs([]uint32{1, 2}, 5))
	bound := func(r gen.R, keys []string) []uint32 {
		switch r.IntN(8) {
		case 0:
			return nil
		case 1:
			return gen.OID(r)
		}
		if len(keys) == 0 {
			return gen.OID(r)
		}
		id := unkey(gen.Pick(r, keys))
		if r.IntN(3) == 0 {
			return id
		}
		return relatedOID(r, id)
	}
	run.Cases("random", run.N(25000, 500000), func(c *mon.Case) {
		x := newTreeRun(c)
		ids := pool(c.R, 3+c.R.IntN(30))
		for _, id := range ids {
			x.t.AddNode(id)
			x.m.add(id)
		}
		for k := c.R.IntN(4); k > 0; k-- {
			id := gen.Pick(c.R, ids)
			x.t.RemoveNode(id)
			x.m.remove(id)
		}
		ptr := pointers(c, x.t, x.m)
		leaves, keys := x.m.leaves(), x.m.keys()
		for k := 0; k < 60; k++ {
			s, e, inc := bound(c.R, keys), bound(c.R, keys), c.R.IntN(2) == 0
			if c.R.IntN(3) == 0 {
				e = nil
			}
			ask(c, x.t, leaves, ptr, s, e, inc)
			c.Sig(len(leaves), showOID(s), showOID(e), inc)
		}
		c.Sample(func() string { return "leaves " + showLeaves(leaves) })
	})
	// the same questions again and again while the tree changes
	run.Cases("histories", run.N(6000, 150000), func(c *mon.Case) {
		x := newTreeRun(c)
		ids := pool(c.R, 3+c.R.IntN(20))
		type query struct {
			s, e []uint32
			inc  bool
		}
		var qs []query
		for k := 0; k < 12; k++ {
			q := query{gen.Pick(c.R, ids), nil, c.R.IntN(3) == 0}
			if c.R.IntN(2) == 0 {
				q.e = gen.Pick(c.R, ids)
			}
			if c.R.IntN(3) == 0 {
				q.s = relatedOID(c.R, q.s)
			}
			qs = append(qs, q)
		}
		for k := 5 + c.R.IntN(30); k > 0; k-- {
			id := gen.Pick(c.R, ids)
			switch p := c.R.IntN(16); {
			case p == 0:
				x.clear()
			case p < 6:
				x.remove(id)
			default:
				x.add(id)
			}
			ptr, leaves := pointers(c, x.t, x.m), x.m.leaves()
			for _, q := range qs {
				ask(c, x.t, leaves, ptr, q.s, q.e, q.inc)
			}
			c.Sig(x.state(), "h")
		}
	})
	// a question asked again after a round number of changes
	run.Cases("rounds", run.N(600, 10000), func(c *mon.Case) {
		type query struct {
			s, e []uint32
			inc  bool
		}
		rounds(c, func(x *treeRun, sub func(...uint32) []uint32) {
			qs := []query{{sub(5), nil, false}, {nil, sub(900), true}, {nil, nil, false}, {sub(7), sub(8), false}, {sub(6, 9), nil, true}}
			first := qs[c.Index%len(qs)]
			ptr, leaves := pointers(c, x.t, x.m), x.m.leaves()
			ask(c, x.t, leaves, ptr, first.s, first.e, first.inc)
			if c.Index/8%2 == 0 {
				for _, q := range qs {
					ask(c, x.t, leaves, ptr, q.s, q.e, q.inc)
				}
				ask(c, x.t, leaves, ptr, first.s, first.e, first.inc)
			}
		})
	})
	run.Cases("mib-like", run.N(400, 5000), func(c *mon.Case) {
		var ids [][]uint32
		rows, cols := 1+c.R.IntN(12), 1+c.R.IntN(8)
		table := append([]uint32{1, 3, 6, 1, 2, 1, 2, 2, 1}, gen.OIDn(c.R, c.R.IntN(3))...)
		for i := 1; i <= cols; i++ {
			for j := 1; j <= rows; j++ {
				ids = append(ids, append(append([]uint32(nil), table...), uint32(i), uint32(j*j)))
			}
		}
		for i := 1; i < 8; i++ {
			ids = append(ids, []uint32{1, 3, 6, 1, 2, 1, 1, uint32(i), 0})
		}
		t, leaves, ptr := build(c, ids)
		for k := 0; k < 300; k++ {
			s := relatedOID(c.R, gen.Pick(c.R, ids))
			e := relatedOID(c.R, gen.Pick(c.R, ids))
			if c.R.IntN(2) == 0 {
				e = nil
			}
			if c.R.IntN(4) == 0 { // the column as a bound, as an agent does
				n := len(table) + 1
				if len(s) >= n {
					s = s[:n]
				}
				e = append([]uint32(nil), s...)
				if len(e) > 0 {
					e[len(e)-1]++
				}
			}
			ask(c, t, leaves, ptr, s, e, c.R.IntN(2) == 0)
		}
		c.Sig("mib", c.Index)
	})
	run.Cases("deep", run.N(300, 3000), func(c *mon.Case) {
		n := gen.Pick(c.R, []int{60, 126, 127, 128, 129, 200, 255, 256, 257, 258, 264, 300, 384, 400, 513, 600})
		id := gen.OIDn(c.R, n)
		ids := [][]uint32{id}
		for k := c.R.IntN(5); k > 0; k-- {
			ids = append(ids, relatedOID(c.R, id))
		}
		t, leaves, ptr := build(c, ids)
		for k := 0; k < 100; k++ {
			s, e := relatedOID(c.R, gen.Pick(c.R, ids)), relatedOID(c.R, gen.Pick(c.R, ids))
			if c.R.IntN(3) == 0 {
				e = nil
			}
			ask(c, t, leaves, ptr, s, e, c.R.IntN(2) == 0)
			ask(c, t, leaves, ptr, id[:c.R.IntN(n)], e, c.R.IntN(2) == 0)
			for _, d := range []int{1, 2, 64, 128, 256, 512} {
				if d < n {
					ask(c, t, leaves, ptr, id[:n-d], nil, true)
					ask(c, t, leaves, ptr, nil, id[:n-d], true)
					if k%10 == 0 { // inside a bound that is longer than the leaf
						ask(c, t, leaves, ptr, id, append(append([]uint32(nil), id...), gen.OIDn(c.R, d)...), true)
						ask(c, t, leaves, ptr, append(append([]uint32(nil), id...), gen.OIDn(c.R, d)...), nil, true)
					}
				}
			}
		}
		c.Sig("deep", c.Index)
	})
	run.Cases("very-deep", run.N(40, 400), func(c *mon.Case) { veryDeep(c) })
	run.Cases("wide", run.N(60, 500), func(c *mon.Case) {
		n := gen.Pick(c.R, []int{31, 33, 64, 127, 129, 255, 256, 257, 1000, 2000})
		var ids [][]uint32
		for i := 0; i < n; i++ {
			ids = append(ids, []uint32{5, uint32(i) * 3})
			if i%5 == 0 {
				ids = append(ids, []uint32{5, uint32(i) * 3, 1})
			}
		}
		t, leaves, ptr := build(c, ids)
		for k := 0; k < 400; k++ {
			s := []uint32{5, uint32(c.R.IntN(3*n + 3))}
			e := []uint32{5, uint32(c.R.IntN(3*n + 3))}
			if c.R.IntN(3) == 0 {
				s = append(s, uint32(c.R.IntN(3)))
			}
			if c.R.IntN(3) == 0 {
				e = nil
			}
			ask(c, t, leaves, ptr, s, e, c.R.IntN(2) == 0)
		}
		c.Sig("wide", n, c.Index)
	})
	run.Cases("clusters", run.N(1500, 30000), func(c *mon.Case) {
		x := newTreeRun(c)
		ids := cluster(c.R, gen.Pick(c.R, []int{4, 8, 9, 10, 12, 16, 17, 20, 33, 64}))
		n := len(ids)
		for _, i := range c.R.Perm(n) {
			if i != n-2 && c.R.IntN(20) > 0 {
				x.add(ids[i])
			}
		}
		for k := 0; k < 12; k++ {
			ptr, leaves := pointers(c, x.t, x.m), x.m.leaves()
			for j := 0; j < 40; j++ {
				s, e := relatedOID(c.R, gen.Pick(c.R, ids)), gen.Pick(c.R, ids)
				if j%2 == 0 {
					s = gen.Pick(c.R, ids)
				}
				if c.R.IntN(3) > 0 {
					e = nil
				}
				ask(c, x.t, leaves, ptr, s, e, c.R.IntN(2) == 0)
			}
			c.Sig(x.state(), "c")
			i := gen.Pick(c.R, []int{n - 1, n - 2, c.R.IntN(n), 0})
			if x.m.nodes[key(ids[i])] == nil {
				x.add(ids[i])
			} else {
				x.remove(ids[i])
			}
		}
	})
	run.Cases("huge", run.N(len(hugeSizes), 6*len(hugeSizes)), func(c *mon.Case) { huge(c, hugeSizes[c.Index%len(hugeSizes)]-c.R.IntN(300), "next") })
	run.Cases("empty", 400, func(c *mon.Case) {
		t := oid.NewTree()
		if c.Index%2 == 1 { // emptied again
			id := gen.OIDn(c.R, 1+c.R.IntN(4))
			t.AddNode(id)
			if c.R.IntN(2) == 0 {
				t.RemoveNode(id[:1])
			} else {
				t.Clear()
			}
		}
		for k := 0; k < 10; k++ {
			ask(c, t, nil, nil, bound(c.R, nil), bound(c.R, nil), k%2 == 0)
			ask(c, t, nil, nil, nil, nil, k%2 == 0)
			ask(c, t, nil, nil, []uint32{}, bound(c.R, nil), k%2 == 0)
		}
	})
	run.Need("found", 200000)
	run.Need("none", 200000)
}

// pointers collects the nodes of a tree by their OIDs.
func pointers(c *mon.Case, t *oid.Tree, m *model) map[string]*oid.Node {
	ptr := map[string]*oid.Node{}
	for _, k := range m.keys() {
		n := t.GetNode(unkey(k))
		if n == nil {
			c.Fail("GetNode(%s) = nil although it was added", showOID(unkey(k)))
		}
		ptr[k] = n
	}
	return ptr
}

func showLeaves(leaves []string) string {
	var out []string
	for i, l := range leaves {
		if i == 12 {
			out = append(out, fmt.Sprintf("...(%d)", len(leaves)))
			break
		}
		out = append(out, refText(unkey(l)))
	}
	return "{" + strings.Join(out, " ") + "}"
}
