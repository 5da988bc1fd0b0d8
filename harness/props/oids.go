package props

import (
	"fmt"
	"math/big"
	"sort"
	"strconv"
	"strings"

	"github.com/alexispb/mygosnmp/oid"

	"verif/harness/gen"
	"verif/harness/mon"
)

func init() {
	reg("C14", c14)
	reg("C15", c15)
	reg("C16", c16)
}

// refCompare is the order of the property text.
func refCompare(a, b []uint32) int {
	for i := 0; ; i++ {
		switch {
		case i == len(a) && i == len(b):
			return 0
		case i == len(a):
			return -1
		case i == len(b):
			return 1
		case a[i] < b[i]:
			return -1
		case a[i] > b[i]:
			return 1
		}
	}
}

// allOIDs enumerates the OIDs over an alphabet up to a length, in no order.
func allOIDs(alphabet []uint32, maxLen int) [][]uint32 {
	out := [][]uint32{{}}
	last := out
	for n := 1; n <= maxLen; n++ {
		var next [][]uint32
		for _, p := range last {
			for _, s := range alphabet {
				next = append(next, append(append([]uint32(nil), p...), s))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func showOID(id []uint32) string {
	if len(id) > 40 {
		return fmt.Sprintf("%v...(%d sub-ids)...%v", id[:20], len(id), id[len(id)-8:])
	}
	return fmt.Sprint(id)
}

// relatedOID returns an OID that differs from id in a telling way.
func relatedOID(r gen.R, id []uint32) []uint32 {
	b := append([]uint32(nil), id...)
	switch r.IntN(9) {
	case 0:
		return b
	case 1:
		return b[:r.IntN(len(b)+1)]
	case 2:
		return append(b, gen.OIDn(r, 1+r.IntN(4))...)
	case 3, 4, 5:
		if len(b) > 0 {
			i := r.IntN(len(b))
			if r.IntN(3) == 0 {
				i = len(b) - 1
			}
			b[i] += gen.Pick(r, []uint32{1, ^uint32(0), 256, 1 << 16, 1 << 31, 0xff, 1 << 24, 0x80000001, 0x7fffffff, 2})
		}
		return b
	case 6:
		if len(b) > 1 {
			i := r.IntN(len(b) - 1)
			b[i], b[i+1] = b[i+1], b[i]
		}
		return b
	case 7:
		if len(b) > 0 {
			i := r.IntN(len(b))
			b[i] = gen.U32(r)
			b = b[:i+1]
		}
		return append(b, gen.OIDn(r, r.IntN(4))...)
	default:
		return gen.OID(r)
	}
}

func anyOID(r gen.R) []uint32 {
	switch r.IntN(12) {
	case 0:
		return gen.OIDn(r, 120+r.IntN(20))
	case 1:
		return gen.OIDn(r, gen.Pick(r, []int{255, 256, 257, 300, 511, 512, 513, 1024}))
	default:
		return gen.OID(r)
	}
}

func c14(run *mon.Run) {
	run.Rule("Pairs and triples of OIDs: exhaustive over small alphabets (with 0, 2^31 and 2^32-1), random pairs related by prefix, one changed sub-id, swap or extension, lengths up to 65536; all seven functions are compared with an independent comparison, plus antisymmetry, transitivity and sorting. Non-trivial: the pair shares a first sub-id or one is empty; distinct by pair.")
	pair := func(c *mon.Case, a, b []uint32) {
		want := refCompare(a, b)
		got := oid.Compare(a, b)
		if got != want {
			c.Fail("Compare(%s, %s) = %d, want %d", showOID(a), showOID(b), got, want)
		}
		if back := oid.Compare(b, a); back != -want {
			c.Fail("Compare(%s, %s) = %d, want %d", showOID(b), showOID(a), back, -want)
		}
		for _, t := range []struct {
			name      string
			got, want bool
		}{
			{"Lt", oid.Lt(a, b), want < 0}, {"Le", oid.Le(a, b), want <= 0}, {"Eq", oid.Eq(a, b), want == 0},
			{"Ne", oid.Ne(a, b), want != 0}, {"Ge", oid.Ge(a, b), want >= 0}, {"Gt", oid.Gt(a, b), want > 0},
		} {
			if t.got != t.want {
				c.Fail("%s(%s, %s) = %v, want %v", t.name, showOID(a), showOID(b), t.got, t.want)
			}
		}
		c.Event(fmt.Sprintf("order%+d", want))
	}
	sig := func(c *mon.Case, a, b []uint32) {
		if len(a) == 0 || len(b) == 0 || a[0] == b[0] {
			c.Sig(showOID(a), showOID(b))
		}
		c.Sample(func() string { return showOID(a) + " " + showOID(b) })
	}
	exh := func(name string, set [][]uint32) {
		run.Cases(name, len(set), func(c *mon.Case) {
			for _, b := range set {
				pair(c, set[c.Index], b)
				if len(set) < 200 {
					sig(c, set[c.Index], b)
				}
			}
		})
	}
	exh("exhaustive-bounds", allOIDs([]uint32{0, 1, 1<<31 - 1, 1 << 31, 1<<32 - 1}, run.N(3, 4)))
	exh("exhaustive-binary", allOIDs([]uint32{1, 2}, run.N(8, 10)))
	exh("exhaustive-bytes", allOIDs([]uint32{0, 255, 256, 65535, 65536, 1 << 24}, 3))
	exh("exhaustive-words", func() (out [][]uint32) {
		for _, w := range gen.Bounds32() {
			out = append(out, []uint32{w}, []uint32{1, w}, []uint32{w, 0})
		}
		return
	}())
	run.Cases("nil-empty", 300, func(c *mon.Case) {
		b := anyOID(c.R)
		pair(c, nil, []uint32{})
		pair(c, nil, nil)
		pair(c, nil, b)
		pair(c, []uint32{}, b)
		pair(c, b[:0], nil)
		pair(c, b, b)
		sig(c, nil, b)
	})
	run.Cases("related", run.N(150000, 5000000), func(c *mon.Case) {
		a := anyOID(c.R)
		b := relatedOID(c.R, a)
		pair(c, a, b)
		sig(c, a, b)
	})
	run.Cases("overlapping", run.N(20000, 200000), func(c *mon.Case) {
		a := anyOID(c.R)
		i, j := c.R.IntN(len(a)+1), c.R.IntN(len(a)+1)
		pair(c, a[:i], a[:j])
		pair(c, a[i:], a[j:])
		sig(c, a[i:], a[j:])
	})
	// OIDs that differ although a summary of their sub-ids agrees
	run.Cases("look-alikes", run.N(60000, 1500000), func(c *mon.Case) {
		a := gen.OIDn(c.R, 2+c.R.IntN(gen.Pick(c.R, []int{2, 6, 30, 140})))
		b := gen.LookAlikeOID(c.R, a)
		pair(c, a, b)
		pair(c, append([]uint32{1, 3, 6}, a...), append([]uint32{1, 3, 6}, b...))
		sig(c, a, b)
	})
	// each length pair with equal leading sub-ids, and each position of the first difference
	run.Cases("lengths", 300, func(c *mon.Case) {
		a := gen.OIDn(c.R, 300)
		for j := 0; j <= 300; j++ {
			pair(c, a[:c.Index], a[:j])
		}
		for _, n := range []int{c.Index + 1, 300} {
			b := append([]uint32(nil), a[:n]...)
			b[c.Index] ^= 1 << uint(c.R.IntN(32))
			pair(c, a, b)
			pair(c, a[:c.Index+1], b)
		}
		c.Sig(c.Index, len(a))
	})
	run.Cases("long", run.N(40, 300), func(c *mon.Case) {
		n := gen.Pick(c.R, []int{4096, 32768, 65535, 65536, 65537, 1 << 17})
		a := make([]uint32, n)
		for i := range a {
			a[i] = uint32(i)
		}
		b := append([]uint32(nil), a...)
		pair(c, a, b)
		pair(c, a, b[:n-1])
		pair(c, a, b[:n%65536])
		b[n-1]++
		pair(c, a, b)
		c.Sig(n, c.Index)
	})
	run.Cases("triples", run.N(60000, 1000000), func(c *mon.Case) {
		a := gen.OID(c.R)
		b := relatedOID(c.R, a)
		d := relatedOID(c.R, b)
		if oid.Le(a, b) && oid.Le(b, d) && !oid.Le(a, d) || oid.Lt(a, b) && oid.Le(b, d) && !oid.Lt(a, d) {
			c.Fail("not transitive: %s %s %s", showOID(a), showOID(b), showOID(d))
		}
		if oid.Eq(a, b) && oid.Compare(a, d) != oid.Compare(b, d) {
			c.Fail("equal OIDs compare differently with %s: %s %s", showOID(d), showOID(a), showOID(b))
		}
		c.Event("triples")
		sig(c, a, d)
	})
	run.Cases("sorting", run.N(3000, 30000), func(c *mon.Case) {
		n := 2 + c.R.IntN(60)
		ids := make([][]uint32, n)
		for i := range ids {
			ids[i] = gen.OID(c.R)
			if i > 0 && c.R.IntN(3) > 0 {
				ids[i] = relatedOID(c.R, ids[c.R.IntN(i)])
			}
		}
		want := append([][]uint32(nil), ids...)
		sort.SliceStable(want, func(i, j int) bool { return refCompare(want[i], want[j]) < 0 })
		sort.SliceStable(ids, func(i, j int) bool { return oid.Lt(ids[i], ids[j]) })
		for i := range ids {
			if refCompare(ids[i], want[i]) != 0 {
				c.Fail("sorted position %d holds %s, want %s", i, showOID(ids[i]), showOID(want[i]))
			}
		}
		c.Event("sorts")
		c.Sig(fmt.Sprint(want))
	})
	for _, k := range []string{"order-1", "order+0", "order+1"} {
		run.Need(k, 10000)
	}
	run.Need("triples", 10000)
}

// refParse is the grammar of the property text. spec is false for texts the
// property leaves open.
func refParse(s string) (id []uint32, ok, spec bool) {
	s = strings.TrimPrefix(s, ".")
	if s == "" {
		return nil, true, true
	}
	spec = true
	parts := strings.Split(s, ".")
	for _, p := range parts {
		if p == "" {
			return nil, false, true
		}
		for i := 0; i < len(p); i++ {
			if p[i] < '0' || p[i] > '9' {
				return nil, false, true
			}
		}
		n, _ := new(big.Int).SetString(p, 10)
		if n.Cmp(big.NewInt(4294967295)) > 0 {
			return nil, false, true
		}
		if len(p) > 1 && p[0] == '0' {
			spec = false
		}
		id = append(id, uint32(n.Uint64()))
	}
	if len(parts) > 128 {
		return nil, false, true
	}
	return id, true, spec
}

func refText(id []uint32) string {
	parts := make([]string, len(id))
	for i, s := range id {
		parts[i] = strconv.FormatUint(uint64(s), 10)
	}
	return strings.Join(parts, ".")
}

func c15(run *mon.Run) {
	run.Rule("Texts: all strings over a 13-character alphabet up to a length, texts of generated OIDs with and without edits, every component length and numeric bound, 0..300 components; each is parsed and compared with the grammar. OIDs of 0..300 sub-ids are printed and parsed back. Non-trivial: every text; distinct by text.")
	parse := func(c *mon.Case, s string) {
		want, ok, spec := refParse(s)
		if !spec {
			c.Event("unconstrained")
			oidTry(s)
			return
		}
		got, p := oidTry(s)
		if ok && p != nil {
			c.Fail("Parse(%q) panics (%v), want %s", trunc(s, 300), p, showOID(want))
		}
		if !ok && p == nil {
			c.Fail("Parse(%q) returns %s, want a panic", trunc(s, 300), showOID(got))
		}
		if ok && refCompare(got, want) != 0 {
			c.Fail("Parse(%q) = %s, want %s", trunc(s, 300), showOID(got), showOID(want))
		}
		if ok {
			c.Event("accepted")
			// the result is the caller's: changing it changes nothing else
			for i := range got {
				got[i] = ^got[i]
			}
			got = append(got, 77)
			if again, p := oidTry(s); p != nil || refCompare(again, want) != 0 {
				c.Fail("Parse(%q) after the caller changed an earlier result = %s (panic %v), want %s", trunc(s, 300), showOID(again), p, showOID(want))
			}
			_ = got
		} else {
			c.Event("refused")
		}
	}
	text := func(c *mon.Case, id []uint32) {
		want := refText(id)
		if got := oid.String(id); got != want {
			c.Fail("String(%s) = %q, want %q", showOID(id), trunc(got, 300), trunc(want, 300))
		}
		var sb strings.Builder
		pre := gen.Pick(c.R, []string{"", "x", "1.", "0.0", "."})
		sb.WriteString(pre)
		oid.Fprint(&sb, id)
		if sb.String() != pre+want {
			c.Fail("Fprint(%s) after %q gives %q", showOID(id), pre, trunc(sb.String(), 300))
		}
		parse(c, want)
		parse(c, "."+want)
		c.Event("printed")
		c.Sig(want)
		c.Sample(func() string { return trunc(want, 200) })
	}
	alphabet := []string{"0", "1", "2", "4", "9", ".", "-", "+", " ", "_", "a", "x", "\n"}
	for n := 0; n <= run.N(5, 6); n++ {
		total := 1
		for i := 0; i < n; i++ {
			total *= len(alphabet)
		}
		const chunk = 2000
		run.Cases(fmt.Sprintf("exhaustive-%d", n), (total+chunk-1)/chunk, func(c *mon.Case) {
			for k := c.Index * chunk; k < min(total, (c.Index+1)*chunk); k++ {
				var sb strings.Builder
				for i, v := 0, k; i < n; i++ {
					sb.WriteString(alphabet[v%len(alphabet)])
					v /= len(alphabet)
				}
				parse(c, sb.String())
				if k%16 == 0 {
					c.Sig(sb.String())
				}
			}
		})
	}
	run.Cases("dots-digits", 1<<15, func(c *mon.Case) { // all dot patterns of length 15
		b := make([]byte, 15)
		for i := range b {
			b[i] = byte('1' + c.R.IntN(9))
			if c.Index>>i&1 == 1 {
				b[i] = '.'
			}
		}
		parse(c, string(b))
		c.Sig(b)
	})
	run.Cases("every-char", 256*6, func(c *mon.Case) {
		ch := string([]byte{byte(c.Index)})
		s := []string{ch, "1" + ch, ch + "1", "1." + ch + "2", "1.3" + ch + "6.1", "1.3.6.1" + ch}[c.Index/256]
		parse(c, s)
		c.Sig(s)
	})
	run.Cases("every-rune", 0x3000, func(c *mon.Case) {
		parse(c, string(rune(c.Index)))
		parse(c, "1."+string(rune(c.Index)))
		parse(c, "1"+string(rune(c.Index))+"2")
	})
	run.Cases("numbers", run.N(20000, 300000), func(c *mon.Case) {
		r := c.R
		n := new(big.Int)
		switch r.IntN(5) {
		case 0:
			n.Exp(big.NewInt(2), big.NewInt(int64(r.IntN(130))), nil)
		case 1:
			n.Exp(big.NewInt(10), big.NewInt(int64(r.IntN(40))), nil)
		case 2:
			n.SetUint64(uint64(gen.U32(r)))
		case 3:
			n.SetUint64(1 << 32)
			n.Mul(n, big.NewInt(int64(1+r.IntN(1000))))
		default:
			n.SetUint64(gen.U64(r))
		}
		n.Add(n, big.NewInt(int64(r.IntN(7)-3)))
		s := n.String() // may be negative: refused
		switch r.IntN(4) {
		case 0:
			s = "1.3." + s
		case 1:
			s = s + ".1"
		case 2:
			s = "." + s
		}
		parse(c, s)
		c.Sig(s)
	})
	run.Cases("counts", 301*4, func(c *mon.Case) {
		id := make([]uint32, c.Index/4)
		for i := range id {
			id[i] = uint32(c.R.IntN(10))
			if c.Index%4 == 1 {
				id[i] = gen.U32(c.R)
			}
			if c.Index%4 == 2 {
				id[i] = 4294967295
			}
		}
		text(c, id)
	})
	run.Cases("oids", run.N(60000, 2000000), func(c *mon.Case) { text(c, anyOID(c.R)) })
	run.Cases("single", 300, func(c *mon.Case) {
		for _, v := range words() {
			text(c, []uint32{v})
			text(c, []uint32{uint32(c.Index), v})
		}
	})
	// one slice, changed in place between two prints
	run.Serial("in-place", run.N(6000, 100000), func(c *mon.Case) {
		id := gen.OIDn(c.R, 1+c.R.IntN(40))
		for k := 0; k < 8; k++ {
			want := refText(id)
			if k%3 < 2 {
				if got := oid.String(id); got != want {
					c.Fail("after a change in place, String(%s) = %q, want %q", showOID(id), trunc(got, 300), trunc(want, 300))
				}
			}
			if k%3 > 0 {
				var sb strings.Builder
				oid.Fprint(&sb, id)
				if sb.String() != want {
					c.Fail("after a change in place, Fprint(%s) gives %q", showOID(id), trunc(sb.String(), 300))
				}
			}
			c.Event("printed-after-change-in-place")
			c.Sig(want)
			if c.R.IntN(2) == 0 {
				copy(id, gen.LookAlikeOID(c.R, id))
			} else {
				id[c.R.IntN(len(id))] ^= 1 << c.R.IntN(32)
			}
		}
	})
	run.Cases("edited", run.N(80000, 2000000), func(c *mon.Case) {
		r := c.R
		b := []byte(refText(gen.OID(r)))
		if r.IntN(3) == 0 {
			b = append([]byte("."), b...)
		}
		for k := 1 + r.IntN(2); k > 0; k-- {
			i := r.IntN(len(b) + 1)
			switch r.IntN(4) {
			case 0:
				b = append(b[:i:i], append([]byte{gen.Pick(r, []byte(". +-0129axXeE_,/:;\n\t\x00%'\""))}, b[i:]...)...)
			case 1:
				if i < len(b) {
					b = append(b[:i:i], b[i+1:]...)
				}
			case 2:
				if i < len(b) {
					b[i] = gen.Pick(r, []byte(". +-0129axXeE_,/:;\n\t\x00%"))
				}
			default:
				b = append(b[:i:i], append([]byte(gen.Pick(r, []string{"..", ".", " ", "0x1", "1e3", "4294967296", "99999999999999999999"})), b[i:]...)...)
			}
		}
		parse(c, string(b))
		c.Sig(b)
		c.Sample(func() string { return strconv.Quote(trunc(string(b), 200)) })
	})
	run.Need("accepted", 20000)
	run.Need("refused", 20000)
	run.Need("printed", 20000)
}

func oidTry(s string) (id []uint32, p interface{}) {
	defer func() { p = recover() }()
	id = oid.Parse(s)
	return
}

// roomy copies id into the middle of a larger array with canaries around it;
// check tells whether anything outside changed.
type roomy struct {
	all  []uint32
	at   int
	id   []uint32
	want []uint32
}

func newRoomy(r gen.R, id []uint32) *roomy {
	pre, post := r.IntN(4), r.IntN(12)
	x := &roomy{at: pre}
	x.all = make([]uint32, pre+len(id)+post)
	for i := range x.all {
		x.all[i] = 0xC0FFEE00 + uint32(i)
	}
	copy(x.all[pre:], id)
	x.id = x.all[pre : pre+len(id)]
	x.want = append([]uint32(nil), x.all...)
	return x
}

func (x *roomy) damaged() string {
	for i := range x.all {
		if x.all[i] != x.want[i] {
			where := "argument"
			if i >= x.at+len(x.id) {
				where = "spare capacity behind the argument"
			} else if i < x.at {
				where = "memory before the argument"
			}
			return fmt.Sprintf("%s changed at %d: %d, was %d", where, i-x.at, x.all[i], x.want[i])
		}
	}
	return ""
}

func c16(run *mon.Run) {
	run.Rule("Clone, Cat and HasPrefix get OIDs that lie inside larger arrays filled with canaries (also arguments that overlap each other); the results are checked against the definition, then results and arguments are overwritten over their full capacity and appended to, and every other slice is checked. Non-trivial: the argument has spare capacity or several results share an argument; distinct by arguments.")
	eq := func(c *mon.Case, what string, got, want []uint32) {
		if refCompare(got, want) != 0 {
			c.Fail("%s = %s, want %s", what, showOID(got), showOID(want))
		}
	}
	// results of a shared base must be independent of it and of each other
	run.Cases("independence", run.N(120000, 3000000), func(c *mon.Case) {
		r := c.R
		base := newRoomy(r, gen.OID(r))
		id0 := append([]uint32(nil), base.id...)
		type res struct {
			what      string
			got, want []uint32
		}
		var all []res
		var args []*roomy
		for k := 1 + r.IntN(4); k > 0; k-- {
			switch r.IntN(3) {
			case 0:
				all = append(all, res{fmt.Sprintf("Clone(%s)", showOID(id0)), oid.Clone(base.id), id0})
				c.Event("clones")
			default:
				var tail []uint32
				if r.IntN(4) > 0 {
					tail = gen.OIDn(r, r.IntN(6))
				}
				want := append(append([]uint32(nil), id0...), tail...)
				var got []uint32
				if r.IntN(3) == 0 && cap(base.id) > len(base.id) { // the tail lies in the spare capacity
					n := r.IntN(cap(base.id) - len(base.id) + 1)
					tail = base.id[len(base.id) : len(base.id)+n]
					want = append(append([]uint32(nil), id0...), tail...)
					got = oid.Cat(base.id, tail...)
					c.Event("overlapping-cats")
				} else {
					a := newRoomy(r, tail)
					args = append(args, a)
					got = oid.Cat(base.id, a.id...)
				}
				all = append(all, res{fmt.Sprintf("Cat(%s, %s)", showOID(id0), showOID(tail)), got, want})
				c.Event("cats")
			}
			for _, x := range all {
				eq(c, x.what, x.got, x.want)
			}
			if d := base.damaged(); d != "" {
				c.Fail("%s: %s", all[len(all)-1].what, d)
			}
			for _, a := range args {
				if d := a.damaged(); d != "" {
					c.Fail("%s: sub-ids %s", all[len(all)-1].what, d)
				}
			}
		}
		// overwrite one after another over the full capacity, append, and look at the rest
		perm := r.Perm(len(all))
		for n, i := range perm {
			x := all[i].got
			_ = append(x, 0xAAAA0001, 0xAAAA0002)
			full := x[:cap(x)]
			for j := range full {
				full[j] = 0xBBBB0000 + uint32(j)
			}
			c.Event("overwritten")
			if d := base.damaged(); d != "" {
				c.Fail("after writing to the result of %s: %s", all[i].what, d)
			}
			for _, a := range args {
				if d := a.damaged(); d != "" {
					c.Fail("after writing to the result of %s: sub-ids %s", all[i].what, d)
				}
			}
			for _, j := range perm[n+1:] {
				eq(c, "after writing to the result of "+all[i].what+" the result of "+all[j].what, all[j].got, all[j].want)
			}
		}
		c.Sig(fmt.Sprint(id0, cap(base.id)-len(base.id), len(all)))
		c.Sample(func() string {
			return fmt.Sprintf("%s spare %d, %d results", showOID(id0), cap(base.id)-len(base.id), len(all))
		})
	})
	// changes and appends to the arguments do not show in the results
	run.Cases("arguments-change", run.N(60000, 1000000), func(c *mon.Case) {
		r := c.R
		base, tail := newRoomy(r, gen.OID(r)), newRoomy(r, gen.OIDn(r, r.IntN(5)))
		w1 := append([]uint32(nil), base.id...)
		w2 := append(append([]uint32(nil), base.id...), tail.id...)
		a, b := oid.Clone(base.id), oid.Cat(base.id, tail.id...)
		b2 := oid.Cat(base.id)
		for i := range base.all {
			base.all[i] = ^base.all[i]
		}
		for i := range tail.all {
			tail.all[i] = ^tail.all[i]
		}
		eq(c, "after changing the argument, Clone(id)", a, w1)
		eq(c, "after changing the argument, Cat(id)", b2, w1)
		eq(c, "after changing the arguments, Cat(id, subids...)", b, w2)
		c.Event("argument-changes")
		c.Sig(fmt.Sprint(w2))
	})
	run.Cases("chains", run.N(20000, 300000), func(c *mon.Case) { // sibling OIDs built from one parent
		r := c.R
		cur := oid.Clone(gen.OIDn(r, r.IntN(5)))
		want := append([]uint32(nil), cur...)
		var olds, wants [][]uint32
		for k := 0; k < 12; k++ {
			s := gen.U32(r)
			sib1, sib2 := oid.Cat(cur, s), oid.Cat(cur, s+1)
			olds = append(olds, sib1, sib2)
			wants = append(wants, append(append([]uint32(nil), want...), s), append(append([]uint32(nil), want...), s+1))
			cur, want = sib1, wants[len(wants)-2]
		}
		for i := range olds {
			eq(c, "chained Cat", olds[i], wants[i])
		}
		c.EventN("cats", 24)
		c.Sig(fmt.Sprint(want))
	})
	prefix := func(c *mon.Case, id, p []uint32) {
		want := len(p) <= len(id) && refCompare(id[:len(p)], p) == 0
		a, b := newRoomy(c.R, id), newRoomy(c.R, p)
		if got := oid.HasPrefix(a.id, b.id...); got != want {
			c.Fail("HasPrefix(%s, %s) = %v, want %v", showOID(id), showOID(p), got, want)
		}
		if d := a.damaged() + b.damaged(); d != "" {
			c.Fail("HasPrefix(%s, %s): %s", showOID(id), showOID(p), d)
		}
		c.Event(fmt.Sprintf("prefix-%v", want))
	}
	small := append(allOIDs([]uint32{1, 2}, 6), allOIDs([]uint32{0, 1 << 31, 1<<32 - 1}, 3)...)
	run.Cases("prefix-exhaustive", len(small), func(c *mon.Case) {
		for _, p := range small {
			prefix(c, small[c.Index], p)
		}
		prefix(c, small[c.Index], nil)
	})
	run.Cases("prefix-random", run.N(60000, 1000000), func(c *mon.Case) {
		a := anyOID(c.R)
		b := relatedOID(c.R, a)
		if c.R.IntN(2) == 0 {
			b = b[:min(len(b), c.R.IntN(len(a)+1))]
		}
		prefix(c, a, b)
		prefix(c, b, a)
		c.Sig("p", showOID(a), showOID(b))
	})
	// both arguments are pieces of one array: prefixes, tails, middles and overlaps
	run.Cases("prefix-aliased", run.N(40000, 800000), func(c *mon.Case) {
		r := c.R
		n := 1 + r.IntN(24)
		arr := make([]uint32, n, n+r.IntN(4))
		period := 1 + r.IntN(4)
		for i := range arr {
			arr[i] = uint32(i % period)
			if r.IntN(12) == 0 {
				arr[i] = gen.U32(r)
			}
		}
		was := append([]uint32(nil), arr...)
		for k := 0; k < 12; k++ {
			a := r.IntN(n)
			b := a + r.IntN(n-a+1)
			x := r.IntN(n)
			y := x + r.IntN(n-x+1)
			switch r.IntN(5) {
			case 0:
				x, y = a+r.IntN(b-a+1), b // a tail of the OID
			case 1:
				x, y = a, a+r.IntN(b-a+1) // a head of it
			case 2:
				x, y = a, min(n, b+1) // one more
			}
			id, p := arr[a:b], arr[x:y]
			want := len(p) <= len(id) && refCompare(was[a:a+len(p)], was[x:y]) == 0
			if got := oid.HasPrefix(id, p...); got != want {
				c.Fail("HasPrefix(%s, %s) = %v, want %v (elements %d..%d and %d..%d of one array)", showOID(id), showOID(p), got, want, a, b, x, y)
			}
			w := append(append([]uint32(nil), was[a:b]...), was[x:y]...)
			cat, cl := oid.Cat(id, p...), oid.Clone(id)
			eq(c, fmt.Sprintf("Cat(%s, %s) (pieces of one array)", showOID(was[a:b]), showOID(was[x:y])), cat, w)
			eq(c, "Clone", cl, was[a:b])
			eq(c, "the array behind the arguments", arr[:n], was)
			for _, z := range [][]uint32{cat, cl} { // writing the results leaves the array alone
				for i := range z[:cap(z)] {
					z[:cap(z)][i] ^= 0xFFFF
				}
			}
			eq(c, "after writing to the results, the array behind the arguments", arr[:n], was)
			c.Event("aliased-pairs")
			c.Sig("al", showOID(was[a:b]), showOID(was[x:y]), x-a)
		}
	})
	// one slice whose elements change between the calls
	run.Cases("in-place", run.N(20000, 300000), func(c *mon.Case) {
		r := c.R
		n := 1 + r.IntN(gen.Pick(r, []int{4, 16, 64, 140}))
		id, p := gen.OIDn(r, n), make([]uint32, 1+r.IntN(n))
		copy(p, id)
		for k := 0; k < 12; k++ {
			want := refCompare(id[:len(p)], p) == 0
			if got := oid.HasPrefix(id, p...); got != want {
				c.Fail("HasPrefix(%s, %s) = %v, want %v after changing the arguments in place", showOID(id), showOID(p), got, want)
			}
			eq(c, "after changing the argument in place, Clone", oid.Clone(id), id)
			eq(c, "after changing the argument in place, Cat", oid.Cat(id, p...), append(append([]uint32(nil), id...), p...))
			i := r.IntN(len(p))
			switch r.IntN(3) {
			case 0:
				p[i] = gen.U32(r)
			case 1:
				id[r.IntN(n)]++
			default:
				copy(p, id)
			}
			c.Event("in-place-calls")
		}
		c.Sig("ip", showOID(id), showOID(p))
	})
	run.Need("cats", 50000)
	run.Need("clones", 10000)
	run.Need("overlapping-cats", 5000)
	run.Need("prefix-true", 10000)
	run.Need("prefix-false", 10000)
}
