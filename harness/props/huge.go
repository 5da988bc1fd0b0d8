package props

import (
	"fmt"
	"sort"
	"time"

	"github.com/alexispb/mygosnmp/oid"

	"verif/harness/mon"
)

// hugeSizes are numbers of children under one node.
var hugeSizes = []int{5000, 9000, 17000, 33000, 45000, 66000, 100000, 140000, 270000, 540000, 1060000}

// huge builds a tree with tens of thousands of nodes, most of them under one
// parent (or in two levels), and looks at it against a sorted list.
// The OIDs are prefix.i or prefix.(i>>8).(i&255) for i in the list.
func huge(c *mon.Case, n int, what string) {
	r := c.R
	t := oid.NewTree()
	prefix := [][]uint32{nil, {7}, {1, 3, 6, 1}}[r.IntN(3)]
	nested := c.Index%4 == 3
	id := func(i uint32) []uint32 {
		out := append(make([]uint32, 0, 8), prefix...)
		if nested {
			return append(out, i>>8, i&255)
		}
		return append(out, i)
	}
	have := map[uint32]*oid.Node{}
	add := func(i uint32) {
		node := t.AddNode(id(i))
		if _, ok := have[i]; ok {
			if node != nil {
				c.Fail("AddNode(%s) returns a node for a present OID in a tree of %d leaves", showOID(id(i)), len(have))
			}
			return
		}
		if node == nil {
			c.Fail("AddNode(%s) = nil for an absent OID in a tree of %d leaves", showOID(id(i)), len(have))
		}
		have[i] = node
		if node.Subid != id(i)[len(id(i))-1] {
			c.Fail("AddNode(%s) returned a node with Subid %d", showOID(id(i)), node.Subid)
		}
	}
	var late []uint32
	v := uint32(r.IntN(3))
	begin := time.Now()
	for k := 0; k < n; k++ { // mostly ascending, so that building is cheap
		if k%1024 == 0 && time.Since(begin) > 25*time.Second {
			n = max(k, 1)
			c.Event("huge-tree-cut-short")
			break
		}
		if r.IntN(150) == 0 && len(late) < 900 {
			late = append(late, v)
		} else {
			add(v)
		}
		v += 1 + uint32(r.IntN(3))
	}
	top := v
	r.Shuffle(len(late), func(i, j int) { late[i], late[j] = late[j], late[i] })
	for _, i := range late {
		add(i)
	}
	var list []uint32
	sorted := func() {
		list = list[:0]
		for i := range have {
			list = append(list, i)
		}
		sort.Slice(list, func(i, j int) bool { return list[i] < list[j] })
	}
	some := func() uint32 {
		if r.IntN(2) == 0 {
			return list[r.IntN(len(list))]
		}
		return uint32(r.IntN(int(top) + 5))
	}
	look := func() {
		sorted()
		switch what {
		case "structure":
			for k := 0; k < 3000; k++ {
				i := some()
				if got := t.GetNode(id(i)); got != have[i] {
					c.Fail("GetNode(%s) = %v, want %v, in a tree of %d leaves", showOID(id(i)), got, have[i], len(list))
				}
			}
			at := 0
			t.ForRangeLeaves(func(x []uint32, node *oid.Node) {
				if at >= len(list) {
					c.Fail("the leaf iteration visits more than the %d leaves", len(list))
				}
				if w := id(list[at]); refCompare(x, w) != 0 || node != have[list[at]] {
					c.Fail("leaf %d of %d in the iteration is %s, want %s", at, len(list), showOID(x), showOID(w))
				}
				at++
			})
			if at != len(list) {
				c.Fail("the leaf iteration ends after %d of %d leaves", at, len(list))
			}
			for k := 0; k < 300; k++ { // what is there is not added again
				add(list[r.IntN(len(list))])
			}
			if p := t.GetNode(prefix); !nested && len(prefix) > 0 && (p == nil || len(p.Children) != len(list)) {
				c.Fail("the parent does not have %d children", len(list))
			}
			c.Event("audits")
		case "next":
			queries := min(6000, 30000000/n) // each one may look at all children
			for k := 0; k < queries; k++ {
				s, e, inc := some(), some(), r.IntN(2) == 0
				if r.IntN(3) == 0 {
					e = top + 1
				}
				want := sort.Search(len(list), func(j int) bool { return list[j] > s || inc && list[j] == s })
				var w *oid.Node
				if want < len(list) && list[want] < e {
					w = have[list[want]]
				}
				if got := t.GetNextNode(id(s), id(e), inc); got != w {
					c.Fail("GetNextNode(%s, %s, %v) = %v, want %v, in a tree of %d leaves", showOID(id(s)), showOID(id(e)), inc, got, w, len(list))
				}
			}
			c.EventN("found", queries)
		default:
			// walks over stretches of the tree, and one over all if that is cheap
			stretch := 40
			if n < 10000 {
				stretch = n
			}
			for k := 0; k < 1+min(100, 80000000/n/stretch); k++ {
				var cur, end []uint32
				at, inc := 0, r.IntN(2) == 0
				if k > 0 || r.IntN(2) == 0 {
					s := some()
					cur = id(s)
					at = sort.Search(len(list), func(j int) bool { return list[j] > s || inc && list[j] == s })
				}
				last := len(list)
				if stretch < n || r.IntN(2) == 0 {
					last = min(at+r.IntN(stretch), len(list)-1)
					end = id(list[last])
				}
				for ; ; inc = false {
					node := t.GetNextNode(cur, end, inc)
					if node == nil && at >= last {
						break
					}
					if node == nil || at >= last || node != have[list[at]] {
						c.Fail("a walk up to %s over %d leaves goes from %s (include %v) to %v", showOID(end), len(list), showOID(cur), inc, node)
					}
					cur = id(list[at])
					at++
					c.Event("visits")
				}
			}
			c.Event("walks")
		}
	}
	look()
	for k := 0; k < 400; k++ {
		i := some()
		if _, ok := have[i]; ok {
			if !t.RemoveNode(id(i)) {
				c.Fail("RemoveNode(%s) = false for a present OID in a tree of %d leaves", showOID(id(i)), len(have))
			}
			delete(have, i)
			if nested { // a parent that lost its last child is a leaf: keep one
				if p := t.GetNode(id(i)[:len(prefix)+1]); p != nil && len(p.Children) == 0 {
					add(i)
				}
			}
		} else {
			add(i)
		}
	}
	look()
	c.Sig("huge", n, c.Index)
	c.EventN("huge-tree-nodes", n)
	c.Sample(func() string { return fmt.Sprintf("tree with %d leaves", n) })
}
