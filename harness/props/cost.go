package props

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"
	"syscall"
	"time"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	libhex "github.com/alexispb/mygosnmp/hex"
	"github.com/alexispb/mygosnmp/oid"

	"verif/harness/code"
	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() { reg("C35", c35) }

// threadTime is the processor time of this thread. Other processes and the
// collector do not count.
func threadTime() time.Duration {
	var u syscall.Rusage
	if syscall.Getrusage(1, &u) != nil { // RUSAGE_THREAD
		panic("no thread time")
	}
	return time.Duration(u.Utime.Nano() + u.Stime.Nano())
}

// timeOf is the least time one call took in several trials.
func timeOf(f func(), trials int, enough time.Duration) time.Duration {
	best := time.Duration(1 << 62)
	for i := 0; i < trials; i++ {
		reps := 0
		t := threadTime()
		var d time.Duration
		for reps == 0 || d < enough && reps < 1<<20 {
			for k := 0; k <= reps/2; k++ {
				f()
			}
			reps += reps/2 + 1
			d = threadTime() - t
		}
		best = min(best, d/time.Duration(reps))
		if d > time.Second {
			break
		}
	}
	return best
}

// steeper says how much more than in proportion the time grows when there is
// factor times as much of everything, or "" if the growth is below slack.
// When the calls are quick, or the growth is somewhat steep, it also looks at
// 8*factor times as much, where the copying of whole buffers now and then shows.
func steeper(make func(n int) func(), n, factor int, slack float64, seen func(ratio float64)) string {
	steep := 0.0
	s, t1 := steeperBy(make, n, factor, slack, func(ratio float64) { steep = ratio; seen(ratio) })
	if s == "" && (t1 < 10*time.Millisecond || steep > 2) {
		s, _ = steeperBy(make, n, 8*factor, slack, seen)
	}
	return s
}

func steeperBy(make func(n int) func(), n, factor int, slack float64, seen func(ratio float64)) (worst string, t1 time.Duration) {
	for attempt := 0; attempt < 4; attempt++ {
		small, large := make(n), make(n*factor)
		small()
		t0 := max(timeOf(small, 3, time.Millisecond), 200*time.Nanosecond)
		t1 = timeOf(large, 2, 4*time.Millisecond)
		ratio := float64(t1) / float64(t0) / float64(factor)
		seen(ratio)
		if ratio < slack {
			return "", t1
		}
		if attempt > 0 && ratio > 2*slack && t1 > time.Second {
			attempt = 4 // nothing that a busy machine could cause
		}
		worst = fmt.Sprintf("%v for size %d but %v for size %d: %.0f times as long for %d times as much", t0, n, t1, n*factor, ratio*float64(factor), factor)
		runtime.GC()
	}
	return worst, t1
}

type bulkOf struct {
	name string
	pdu  func(r gen.R, n int) agentx.Pdu
}

func costFamilies() (out []bulkOf) {
	vbs := func(name string, vb func(r gen.R, i, n int) asn.Varbind) {
		out = append(out, bulkOf{name, func(r gen.R, n int) agentx.Pdu {
			p := base(code.TagResponse, n%2 == 0)
			for i := 0; i < n; i++ {
				p.Varbinds = append(p.Varbinds, vb(r, i, n))
			}
			return p
		}})
	}
	ifs := func(i uint32) []uint32 { return []uint32{1, 3, 6, 1, 2, 1, 2, 2, 1, 10, i} }
	vbs("equal varbinds", func(r gen.R, i, n int) asn.Varbind {
		return asn.Varbind{Oid: ifs(1), Tag: code.TagCounter32, Value: uint32(5)}
	})
	vbs("ascending varbinds", func(r gen.R, i, n int) asn.Varbind {
		return asn.Varbind{Oid: ifs(uint32(i)), Tag: code.TagOctetString, Value: fmt.Sprint("eth", i)}
	})
	vbs("descending varbinds", func(r gen.R, i, n int) asn.Varbind {
		return asn.Varbind{Oid: ifs(uint32(n - i)), Tag: code.TagObjectId, Value: ifs(uint32(i))}
	})
	vbs("value-less varbinds", func(r gen.R, i, n int) asn.Varbind {
		return asn.Varbind{Oid: []uint32{uint32(i * 77 % n)}, Tag: gen.Pick(r, []asn.Tag{code.TagNull, code.TagNoSuchObject, code.TagEndOfMibView})}
	})
	vbs("mixed varbinds", func(r gen.R, i, n int) asn.Varbind {
		vb := gen.Varbind(r, gen.SmallOpt)
		if len(vb.Oid) > 20 {
			vb.Oid = vb.Oid[:20]
		}
		if vb.Tag == code.TagObjectId || vb.Tag == code.TagOctetString || vb.Tag == code.TagOpaque {
			vb.Tag, vb.Value = code.TagOpaque, []byte{1, 2, 3, byte(i)}
		}
		return vb
	})
	ranges := func(name string, sr func(i, n int) agentx.SearchRange) {
		out = append(out, bulkOf{name, func(r gen.R, n int) agentx.Pdu {
			p := base(code.TagGetNext, n%2 == 0)
			for i := 0; i < n; i++ {
				p.Ranges = append(p.Ranges, sr(i, n))
			}
			return p
		}})
	}
	ranges("equal ranges", func(i, n int) agentx.SearchRange {
		return agentx.SearchRange{StartOid: ifs(1), EndOid: ifs(2), StartIncluded: 1}
	})
	ranges("ranges one after the other", func(i, n int) agentx.SearchRange {
		return agentx.SearchRange{StartOid: ifs(uint32(i)), EndOid: ifs(uint32(i + 1))}
	})
	ranges("empty ranges", func(i, n int) agentx.SearchRange { return agentx.SearchRange{} })
	texts := []struct {
		name string
		text func(r gen.R, n int) string
	}{
		{"zeros", func(r gen.R, n int) string { return string(make([]byte, n)) }},
		{"lines", func(r gen.R, n int) string { return strings.Repeat("line of text\n", n/13+1)[:n] }},
		{"percent signs", func(r gen.R, n int) string { return strings.Repeat("%s%d%", n/5+1)[:n] }},
		{"random bytes", func(r gen.R, n int) string { return string(gen.Bytes(r, n)) }},
		{"letters", func(r gen.R, n int) string { return strings.Repeat("é€😀a ", n/11+1)[:n] }},
	}
	for i, t := range texts {
		place := i
		out = append(out, bulkOf{"string of " + t.name, func(r gen.R, n int) agentx.Pdu {
			return placeStr(place%nStrPlaces, n%2 == 0, t.text(r, 12*n+1))
		}})
	}
	return append(out, bulkOf{"opaque", func(r gen.R, n int) agentx.Pdu {
		p := base(code.TagResponse, n%2 == 0)
		p.Varbinds = []asn.Varbind{{Oid: ifs(1), Tag: code.TagOpaque, Value: gen.Bytes(r, 12*n+3)}}
		return p
	}})
}

func c35(run *mon.Run) {
	run.Rule("Each kind of call (encode, decode, refused encode, decode of truncated, extended and damaged messages, plain and debug; printing; dumps and diffs; OID and tree operations) is timed on an argument and on one that is many times as large, of several shapes (equal, ascending, descending, random elements; long strings and binary values). The monitor reads the processor time of the thread and takes the least of several trials; a ratio far above the ratio of the sizes in four attempts in a row is a violation. The monitor is tried on a linear and a quadratic function of its own in every run. Non-trivial: each pair of shape and call; distinct by pair.")
	defer debug.SetGCPercent(debug.SetGCPercent(-1))
	factor := run.N(32, 96)
	slack := 10.0
	size := 600
	failed := false
	measure := func(c *mon.Case, what string, mk func(n int) func()) {
		if failed {
			return // the check has its answer, and slow calls take long
		}
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		s := steeper(mk, size, factor, slack, func(ratio float64) {
			c.Event("pairs-timed")
			switch {
			case ratio < 0.5:
				c.Event("growth-below-half-of-proportion")
			case ratio < 2:
				c.Event("growth-in-proportion")
			case ratio < slack:
				c.Event("growth-up-to-10-times-proportion")
			default:
				c.Event("growth-above")
			}
		})
		runtime.GC()
		if s != "" {
			failed = true
			c.Fail("%s takes %s", what, s)
		}
		c.Sig(what)
		c.Sample(func() string { return what })
	}
	run.Serial("monitor", 1, func(c *mon.Case) {
		runtime.LockOSThread()
		defer runtime.UnlockOSThread()
		sink := 0
		loop := func(k int) func() {
			return func() {
				for i := 0; i < k; i++ {
					sink += i ^ sink
				}
			}
		}
		if s := steeper(func(n int) func() { return loop(20 * n) }, size, factor, slack, func(float64) {}); s != "" {
			panic("the monitor objects to a linear function: " + s)
		}
		if steeper(func(n int) func() { return loop(n * n) }, size, factor, slack, func(float64) {}) == "" {
			panic("the monitor does not see a quadratic function")
		}
		c.Event("monitor-tried")
		c.Sig("monitor")
	})
	fams := costFamilies()
	type op struct {
		name string
		make func(r gen.R, p agentx.Pdu) func()
	}
	wire := func(p agentx.Pdu) []byte {
		b, ok := ref.Encode(p)
		if !ok {
			panic("invalid PDU")
		}
		return b
	}
	decode := func(m Msg, dbg bool) func() {
		return func() {
			if dbg {
				p, ok := agentx.DecodePduHeaderDbg(m.H, nop{})
				if ok {
					agentx.DecodePduPayloadDbg(&p, m.P, nop{})
				}
				return
			}
			p, ok := agentx.DecodePduHeader(m.H)
			if ok {
				agentx.DecodePduPayload(&p, m.P)
			}
		}
	}
	var ops []op
	for _, dbg := range []bool{false, true} {
		name := map[bool]string{true: "debug ", false: ""}[dbg]
		enc := encPlain
		if dbg {
			enc = encDbg
		}
		ops = append(ops,
			op{name + "encoding", func(r gen.R, p agentx.Pdu) func() { return func() { enc.f(p) } }},
			op{name + "encoding a PDU that is refused", func(r gen.R, p agentx.Pdu) func() {
				switch {
				case len(p.Varbinds) > 0:
					p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: []uint32{1}, Tag: code.TagCounter64, Value: "x"})
				case len(p.Ranges) > 0:
					p.Ranges = append(p.Ranges, agentx.SearchRange{EndOid: make([]uint32, 129)})
				default:
					p.Flags |= 0x80
				}
				return func() { enc.f(p) }
			}},
			op{name + "decoding", func(r gen.R, p agentx.Pdu) func() { return decode(split(wire(p)), dbg) }},
			op{name + "decoding a truncated message", func(r gen.R, p agentx.Pdu) func() {
				b := wire(p)
				b = b[:len(b)-4]
				ref.SetLength(b, len(b)-20)
				return decode(split(b), dbg)
			}},
			op{name + "decoding a damaged message", func(r gen.R, p agentx.Pdu) func() {
				b := append(wire(p), 0, 0, 0, 1)
				ref.SetLength(b, len(b)-20)
				return decode(split(b), dbg)
			}})
	}
	ops = append(ops, op{"printing", func(r gen.R, p agentx.Pdu) func() { return func() { _ = p.String(1) } }},
		op{"printing the parts", func(r gen.R, p agentx.Pdu) func() {
			return func() {
				var sb strings.Builder
				for _, vb := range p.Varbinds {
					vb.Fprint(&sb)
				}
				for _, sr := range p.Ranges {
					sr.Fprint(&sb)
				}
				p.Flags.Fprint(&sb)
			}
		}})
	run.Serial("codec", len(fams)*len(ops), func(c *mon.Case) {
		f, o := fams[c.Index/len(ops)], ops[c.Index%len(ops)]
		measure(c, o.name+": "+f.name, func(n int) func() { return o.make(c.R, f.pdu(c.R, n)) })
	})
	// helpers; the arguments have 32 times size elements
	type helper struct {
		name string
		make func(r gen.R, n int) func()
	}
	data := func(r gen.R, n int) []byte { return gen.Bytes(r, 32*n) }
	words := func(r gen.R, n int) []uint32 {
		id := make([]uint32, 8*n)
		for i := range id {
			id[i] = r.Uint32() >> (i % 32)
		}
		return id
	}
	var helpers []helper
	h := func(name string, mk func(r gen.R, n int) func()) { helpers = append(helpers, helper{name, mk}) }
	h("Dump", func(r gen.R, n int) func() { b := data(r, n); return func() { libhex.Dump("    ", b) } })
	h("Dump with a long prefix", func(r gen.R, n int) func() {
		b, p := data(r, n/8+1), strings.Repeat(" ", 200)
		return func() { libhex.Dump(p, b) }
	})
	h("DumpSub", func(r gen.R, n int) func() { b := data(r, n); return func() { libhex.DumpSub("", b, 3, len(b)-5) } })
	h("DumpTail", func(r gen.R, n int) func() { b := data(r, n); return func() { libhex.DumpTail("", b, len(b)/2) } })
	diff := func(name string, edit func(r gen.R, b []byte) []byte) {
		h("DumpDiff of "+name, func(r gen.R, n int) func() {
			a := data(r, n)
			b := edit(r, append([]byte(nil), a...))
			return func() { libhex.DumpDiff(a, b) }
		})
	}
	diff("equal data", func(r gen.R, b []byte) []byte { return b })
	diff("data that differ at the end", func(r gen.R, b []byte) []byte { b[len(b)-1]++; return b })
	diff("data that differ everywhere", func(r gen.R, b []byte) []byte {
		for i := range b {
			b[i]++
		}
		return b
	})
	diff("data and their half", func(r gen.R, b []byte) []byte { return b[:len(b)/2] })
	diff("data moved by one byte", func(r gen.R, b []byte) []byte { return append([]byte{7}, b...) })
	diff("data and nothing", func(r gen.R, b []byte) []byte { return nil })
	h("oid.String", func(r gen.R, n int) func() { id := words(r, n); return func() { _ = oid.String(id) } })
	h("oid.Fprint of many", func(r gen.R, n int) func() {
		return func() {
			var sb strings.Builder
			for i := 0; i < n; i++ {
				oid.Fprint(&sb, []uint32{1, 3, 6, uint32(i)})
			}
		}
	})
	h("Clone", func(r gen.R, n int) func() { id := words(r, n); return func() { oid.Clone(id) } })
	h("Cat", func(r gen.R, n int) func() { id := words(r, n); return func() { oid.Cat(id, id...) } })
	h("Compare", func(r gen.R, n int) func() {
		a := words(r, n)
		b := append([]uint32(nil), a...)
		b[len(b)-1]++
		return func() { oid.Compare(a, b); oid.Lt(a, b); oid.Ge(b, a[:len(a)-1]) }
	})
	h("HasPrefix", func(r gen.R, n int) func() {
		a := words(r, n)
		b := append([]uint32(nil), a...)
		return func() { oid.HasPrefix(a, b...) }
	})
	bad := func(name string, text func(n int) string) {
		h("Parse of "+name, func(r gen.R, n int) func() {
			s := text(n)
			return func() {
				defer func() { _ = recover() }()
				oid.Parse(s)
			}
		})
	}
	bad("too many sub-ids", func(n int) string { return strings.Repeat("1.", 8*n) + "1" })
	bad("dots", func(n int) string { return strings.Repeat(".", 16*n) })
	bad("a long number", func(n int) string { return strings.Repeat("9", 16*n) })
	bad("zeros", func(n int) string { return "1." + strings.Repeat("0", 16*n) + "1" })
	bad("letters", func(n int) string { return strings.Repeat("x", 16*n) })
	h("values", func(r gen.R, n int) func() {
		o, s, id := data(r, n/4+1), string(data(r, n)), words(r, n)
		return func() {
			var sb strings.Builder
			code.TagOpaque.Fprint(&sb, o)
			code.TagOctetString.Fprint(&sb, s)
			code.TagObjectId.Fprint(&sb, id)
			code.TagOpaque.IsValidValue(o)
			code.TagObjectId.IsValidValue(id)
		}
	})
	// trees with OIDs of ordinary length: one call costs at most in proportion to the nodes
	trees := []struct {
		name string
		id   func(i int) []uint32
	}{
		{"wide", func(i int) []uint32 { return []uint32{1, 3, uint32(i)} }},
		{"table", func(i int) []uint32 { return []uint32{1, 3, 6, 1, uint32(i % 20), uint32(i / 20)} }},
		{"binary", func(i int) (id []uint32) {
			for k := 0; k < 18; k++ {
				id = append(id, uint32(i>>(17-k)&1))
			}
			return
		}},
		{"rows of five", func(i int) []uint32 { return []uint32{1, uint32(i / 5), 4, uint32(i % 5), 0} }},
	}
	for _, t := range trees {
		t := t
		build := func(n int) *oid.Tree {
			tr := oid.NewTree()
			for i := 0; i < n; i++ {
				tr.AddNode(t.id(i))
			}
			return tr
		}
		tree := func(name string, f func(tr *oid.Tree, n int) func()) {
			h(name+" in a tree: "+t.name, func(r gen.R, n int) func() { return f(build(n), n) })
		}
		tree("ForRangeLeaves", func(tr *oid.Tree, n int) func() {
			return func() { tr.ForRangeLeaves(func([]uint32, *oid.Node) {}) }
		})
		tree("GetNode", func(tr *oid.Tree, n int) func() {
			return func() { tr.GetNode(t.id(n - 1)); tr.GetNode(t.id(n + 5)); tr.GetNode(t.id(n / 2)) }
		})
		tree("GetNextNode", func(tr *oid.Tree, n int) func() {
			return func() {
				tr.GetNextNode(t.id(n-2), nil, false)
				tr.GetNextNode(t.id(n/2), nil, true)
				tr.GetNextNode(nil, t.id(0), false)
				tr.GetNextNode([]uint32{9, 9}, nil, true)
				tr.GetNextNode(t.id(n/3), t.id(n/3), true)
			}
		})
		tree("AddNode and RemoveNode", func(tr *oid.Tree, n int) func() {
			return func() {
				for _, i := range []int{n + 7, n / 2, 0} {
					id := append(t.id(i), 4)
					tr.AddNode(id)
					tr.RemoveNode(id)
					tr.RemoveNode(t.id(n + 9))
				}
			}
		})
	}
	run.Serial("helpers", len(helpers), func(c *mon.Case) {
		x := helpers[c.Index]
		measure(c, x.name, func(n int) func() { return x.make(c.R, n) })
	})
	run.Need("monitor-tried", 1)
	run.Need("pairs-timed", 150)
}
