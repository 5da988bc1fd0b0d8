package props

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"runtime"
	"sort"
	"time"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	libhex "github.com/alexispb/mygosnmp/hex"
	"github.com/alexispb/mygosnmp/ipa"
	"github.com/alexispb/mygosnmp/oid"
	"github.com/alexispb/mygosnmp/pduerror"

	"verif/harness/code"
	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() { reg("C34", c34) }

func heapNow() int64 {
	runtime.GC()
	runtime.GC() // pools are emptied by the second collection
	var m runtime.MemStats
	runtime.ReadMemStats(&m)
	return int64(m.HeapAlloc) + int64(m.StackInuse)
}

func goroutinesNow(base int) int {
	n := runtime.NumGoroutine()
	for i := 0; i < 40 && n > base; i++ {
		time.Sleep(5 * time.Millisecond)
		n = runtime.NumGoroutine()
	}
	return n
}

// leftBehind says what n calls leave behind, or "". It runs several rounds of
// calls with contents that never repeat, each as long as all before it; memory
// that grows in each one, or goroutines that stay, are a leak. A cache with an
// upper limit would stop growing.
func leftBehind(n int, call func(k int), seen func()) string {
	k := 0
	round := func(n int) {
		for i := 0; i < n; i++ {
			call(k)
			k++
		}
	}
	g0 := runtime.NumGoroutine()
	round(n) // whatever is set up once is set up now
	const limit = 48 << 10
	before := heapNow()
	var grown []int64
	for len(grown) < 4 {
		round(k)
		now := heapNow()
		grown = append(grown, now-before)
		before = now
		if g := goroutinesNow(g0); g > g0+20 {
			return fmt.Sprintf("%d calls left %d goroutines behind", k, g-g0)
		}
		seen()
		if grown[len(grown)-1] <= limit {
			return ""
		}
	}
	return fmt.Sprintf("memory in use grew in each of %d rounds of calls, %d in all: by %d bytes", len(grown), k, grown)
}

func keeps(c *mon.Case, what string, n int, call func(k int)) {
	if s := leftBehind(n, call, func() { c.EventN("repeated-calls", n); c.Event("heap-measured") }); s != "" {
		c.Fail("%s: %s", what, s)
	}
}

// stamps are templates with places where a number is written.
type stamped struct {
	data   []byte
	places []int
}

func newStamped(p agentx.Pdu) stamped {
	b, ok := ref.Encode(p)
	if !ok {
		panic("invalid PDU")
	}
	s := stamped{data: bytes.Clone(b), places: []int{4, 8}}
	for i := 20; i+4 <= len(b); i++ {
		if bytes.Equal(b[i:i+4], []byte("@@@@")) {
			s.places = append(s.places, i)
			i += 3
		}
	}
	return s
}

func (s stamped) at(k int) Msg {
	for _, i := range s.places {
		binary.BigEndian.PutUint32(s.data[i:], uint32(k)*2654435761)
	}
	return split(s.data)
}

func leakTemplates() (out []stamped) {
	const m = 0x40404040
	name := []uint32{1, 3, 6, 1, 4, 1, m, 7, m}
	for _, order := range []bool{true, false} {
		for i := 0; i < nStrPlaces; i++ {
			out = append(out, newStamped(placeStr(i, order, "@@@@-string-@@@@")))
		}
		for i := 0; i < nOidPlaces; i++ {
			out = append(out, newStamped(placeOid(i, order, name)))
		}
		p := base(code.TagResponse, order)
		for _, t := range ref.VarbindTags {
			vb := asn.Varbind{Oid: name, Tag: t}
			switch t {
			case code.TagInteger32:
				vb.Value = int32(m)
			case code.TagOctetString:
				vb.Value = "@@@@"
			case code.TagObjectId:
				vb.Value = name
			case code.TagIpAddress:
				vb.Value = [4]byte{0x40, 0x40, 0x40, 0x40}
			case code.TagOpaque:
				vb.Value = []byte("@@@@@@@@")
			case code.TagCounter64:
				vb.Value = uint64(m)<<32 | m
			default:
				if !ref.Valueless(t) {
					vb.Value = uint32(m)
				}
			}
			p.Varbinds = append(p.Varbinds, vb)
		}
		out = append(out, newStamped(p))
		p.Tag, p.Params = code.TagTestSet, agentx.NoParams{}
		p.Flags |= code.FlagNonDefaultContext
		p.Context = "context @@@@"
		out = append(out, newStamped(p))
	}
	return
}

// leakPdu is a PDU whose contents depend on k, with memory of its own.
func leakPdu(k int) agentx.Pdu {
	x := uint32(k) * 2654435761
	name := []uint32{1, 3, 6, 1, 4, 1, x, uint32(k)}
	text := fmt.Sprintf("text %d %x", k, x)
	p := base(code.TagGet, k%2 == 0)
	p.SessionId, p.TransactionId, p.PacketId = x, uint32(k), x^uint32(k)
	switch k % 6 {
	case 0:
		p.Ranges = []agentx.SearchRange{{StartOid: name, EndOid: []uint32{2, x}}}
		p.Flags |= code.FlagNonDefaultContext
		p.Context = text
	case 1:
		p.Tag, p.Params = code.TagOpen, agentx.OpenParams{Timeout: 3, Oid: name, Description: text}
	case 2:
		p.Tag, p.Params = code.TagRegister, agentx.RegisterParams{Priority: 127, Subtree: name, RangeSubid: 6, UpperBound: x}
	case 3:
		p.Tag, p.Params = code.TagAddAgentCaps, agentx.AddAgentCapsParams{Oid: name, Description: text}
	default:
		p.Tag, p.Params = code.TagResponse, agentx.ResponseParams{SysUpTime: x, Index: int16(k)}
		p.Varbinds = []asn.Varbind{{Oid: name, Tag: code.TagOctetString, Value: text}, {Oid: []uint32{x, 5}, Tag: code.TagOpaque, Value: []byte(text)},
			{Oid: name, Tag: code.TagObjectId, Value: []uint32{1, 3, x}}, {Oid: name, Tag: code.TagCounter64, Value: uint64(x) << 20}}
	}
	return p
}

// leakCodec are the calls with hostile and ordinary messages.
func leakCodec(run *mon.Run, prefix string) {
	n := run.N(60000, 400000)
	decode := func(m Msg, dbg bool) bool {
		if dbg {
			p, ok := agentx.DecodePduHeaderDbg(m.H, nop{})
			return ok && agentx.DecodePduPayloadDbg(&p, m.P, nop{})
		}
		p, ok := agentx.DecodePduHeader(m.H)
		return ok && agentx.DecodePduPayload(&p, m.P)
	}
	kinds := []struct {
		name string
		n    int
		call func(c *mon.Case, ts []stamped) func(k int)
	}{
		{"decoding well-formed messages", 2 * n, func(c *mon.Case, ts []stamped) func(int) {
			return func(k int) { decode(ts[k%len(ts)].at(k), false) }
		}},
		{"decoding truncated messages", 2 * n, func(c *mon.Case, ts []stamped) func(int) {
			return func(k int) {
				m := ts[k%len(ts)].at(k)
				p, ok := agentx.DecodePduHeader(m.H)
				if !ok {
					return
				}
				m.P = m.P[:min(len(m.P), 4*(k/7%40))]
				p.PayloadSize = int32(len(m.P))
				agentx.DecodePduPayload(&p, m.P)
			}
		}},
		{"decoding payloads with surplus bytes", 2 * n, func(c *mon.Case, ts []stamped) func(int) {
			buf := make([]byte, 0, 4096)
			return func(k int) {
				m := ts[k%len(ts)].at(k)
				p, ok := agentx.DecodePduHeader(m.H)
				if !ok {
					return
				}
				buf = append(append(buf[:0], m.P...), make([]byte, 4*(1+k%7))...)
				buf[len(buf)-1] = byte(k)
				p.PayloadSize = int32(len(buf))
				agentx.DecodePduPayload(&p, buf)
			}
		}},
		{"decoding payloads of another size than announced", 2 * n, func(c *mon.Case, ts []stamped) func(int) {
			return func(k int) {
				m := ts[k%len(ts)].at(k)
				p, _ := agentx.DecodePduHeader(m.H)
				p.PayloadSize += int32(4 * (k%5 - 2))
				agentx.DecodePduPayload(&p, m.P)
			}
		}},
		{"decoding messages with changed bytes", 2 * n, func(c *mon.Case, ts []stamped) func(int) {
			return func(k int) {
				m := ts[k%len(ts)].at(k)
				if len(m.P) == 0 {
					return
				}
				at := (k / 3) % len(m.P)
				old := m.P[at]
				m.P[at] ^= byte(1 << (k % 8))
				decode(m, false)
				m.P[at] = old
			}
		}},
		{"decoding bad headers", 3 * n, func(c *mon.Case, ts []stamped) func(int) {
			return func(k int) {
				h := bytes.Clone(ts[k%len(ts)].at(k).H)
				h[[]int{0, 1, 2, 3, 16, 19}[k%6]] ^= 0xE1
				agentx.DecodePduHeader(h[:min(20, 8+k%20)])
			}
		}},
		{"debug decoding", n / 8, func(c *mon.Case, ts []stamped) func(int) {
			return func(k int) {
				m := ts[k%len(ts)].at(k)
				if k%3 == 0 && len(m.P) > 8 {
					m.P = m.P[:len(m.P)-4]
				}
				decode(m, true)
			}
		}},
		{"encoding", 2 * n, func(c *mon.Case, ts []stamped) func(int) {
			return func(k int) { agentx.EncodePdu(leakPdu(k)) }
		}},
		{"encoding PDUs that are refused", 2 * n, func(c *mon.Case, ts []stamped) func(int) {
			return func(k int) {
				p := leakPdu(k)
				switch k % 5 {
				case 0:
					p.Params = nil
				case 1:
					p.Tag = agentx.PduTag(19 + k%200)
				case 2:
					p.Flags |= 0x80
				case 3:
					p.Tag, p.Params = code.TagResponse, agentx.ResponseParams{}
					p.Varbinds = append(p.Varbinds, asn.Varbind{Tag: code.TagInteger32, Value: p.Context})
				default:
					p.Tag, p.Params = code.TagOpen, agentx.OpenParams{Oid: make([]uint32, 129), Description: "x"}
				}
				agentx.EncodePdu(p)
			}
		}},
		{"debug encoding", n / 8, func(c *mon.Case, ts []stamped) func(int) {
			return func(k int) {
				p := leakPdu(k)
				if k%4 == 0 {
					p.Flags |= 0x40
				}
				agentx.EncodePduDbg(p, nop{})
			}
		}},
	}
	run.Serial(prefix+"codec", len(kinds), func(c *mon.Case) {
		x := kinds[c.Index]
		keeps(c, x.name, x.n, x.call(c, leakTemplates()))
		c.Sig(x.name)
		c.Sample(func() string { return fmt.Sprintf("%s: rounds of %d calls", x.name, x.n) })
	})
	// a few large messages instead of many small ones
	run.Serial(prefix+"large", 4, func(c *mon.Case) {
		big := gen.Bytes(c.R, 200000)
		keeps(c, "handling large messages", 40, func(k int) {
			binary.BigEndian.PutUint32(big[k%1000*4:], uint32(k)+77)
			p := placeStr((c.Index+k)%5, k%2 == 0, string(big))
			b, _ := agentx.EncodePdu(p)
			if len(b) < 20 {
				return
			}
			m := split(b)
			switch c.Index {
			case 1:
				m.P = m.P[:len(m.P)-4]
			case 2:
				m.P = append(m.P, 0, 0, 0, 0)
			case 3:
				m.P[len(m.P)/2] ^= 1
			}
			q, ok := agentx.DecodePduHeader(m.H)
			if ok {
				q.PayloadSize = int32(len(m.P))
				agentx.DecodePduPayload(&q, m.P)
			}
		})
		c.Sig("large", c.Index)
	})
}

func c34(run *mon.Run) {
	run.Rule("Rounds of tens of thousands of calls with contents that never repeat (messages well-formed, truncated, damaged or with surplus bytes, PDUs that are encoded or refused, debug calls, texts, dumps, OID trees that grow and shrink); after each round the live heap after garbage collection and the number of goroutines are measured. Growth in every round is a leak. Non-trivial: each kind of call; distinct by kind.")
	leakCodec(run, "")
	n := run.N(60000, 400000)
	helpers := []struct {
		name string
		n    int
		call func(k int)
	}{
		{"printing PDUs", n / 6, func(k int) { _ = leakPdu(k).String(k % 3) }},
		{"printing varbinds, values and ranges", n, func(k int) {
			p := leakPdu(k)
			for _, vb := range p.Varbinds {
				_ = vb.String()
			}
			for _, r := range p.Ranges {
				_ = r.String()
			}
			_ = ipa.String([4]byte{byte(k), byte(k >> 8), byte(k >> 16), 9})
			_ = asn.Tag(k).String()
			_ = agentx.Flags(k).String()
		}},
		{"value checks", 2 * n, func(k int) {
			b := make([]byte, 32)
			binary.BigEndian.PutUint64(b[8:], uint64(k)*11400714819323198485)
			tag := asn.Tag(k)
			if k%2 == 0 {
				tag = ref.VarbindTags[k/2%len(ref.VarbindTags)]
			}
			_, _ = tag.IsKnown(), tag.IsValueTag()
			for _, v := range []interface{}{string(b), b, []uint32{1, uint32(k)}, int32(k), uint32(k), uint64(k) << 20, [4]byte(b[12:16]), float64(k)} {
				tag.IsValidValue(v)
			}
			_, _, _ = agentx.PduTag(k).String(), agentx.PduTag(1+k%18).NotAllowedFlags(agentx.Flags(k>>8)), pduerror.Error(k).String()
		}},
		{"OID text and parsing", 2 * n, func(k int) {
			id := []uint32{1, 3, 6, uint32(k), uint32(k) * 2654435761}
			s := oid.String(id)
			oid.Parse(s)
			func() {
				defer func() { _ = recover() }()
				oid.Parse(s + ".x")
			}()
		}},
		{"OID operations", 2 * n, func(k int) {
			id := []uint32{1, 3, 6, uint32(k), uint32(k) * 2654435761}
			b := oid.Cat(oid.Clone(id), 5, uint32(k))
			oid.Compare(id, b)
			oid.HasPrefix(b, id...)
		}},
		{"dumps and diffs", n, func(k int) {
			a := make([]byte, 24)
			binary.BigEndian.PutUint64(a[8:], uint64(k)*11400714819323198485)
			b := bytes.Clone(a)
			b[k%24]++
			libhex.Dump("  ", a)
			libhex.DumpTail("", a, k%30)
			libhex.DumpDiff(a, b)
		}},
	}
	run.Serial("helpers", len(helpers), func(c *mon.Case) {
		x := helpers[c.Index]
		keeps(c, x.name, x.n, x.call)
		c.Sig(x.name)
		c.Sample(func() string { return fmt.Sprintf("%s: rounds of %d calls", x.name, x.n) })
	})
	// trees: what is removed does not pile up
	fresh := func(k int) []uint32 { return []uint32{1, 3, 6, 1, uint32(k % 97), uint32(k) * 2654435761, 0} }
	trees := []struct {
		name string
		n    int
		make func() func(k int)
	}{
		{"adding a node and removing it", n, func() func(int) {
			t := oid.NewTree()
			return func(k int) {
				id := fresh(k)
				t.AddNode(id).Data = fmt.Sprint(k)
				t.RemoveNode(id)
				t.RemoveNode(id[:6])
				t.RemoveNode(id[:6])
			}
		}},
		{"adding nodes and removing their subtree", n, func() func(int) {
			t := oid.NewTree()
			return func(k int) {
				t.AddNode(fresh(k))
				t.AddNode([]uint32{1, 3, 6, 1, uint32(k)})
				if k%50 == 49 {
					t.RemoveNode([]uint32{1, 3})
				}
			}
		}},
		{"filling and clearing a tree", n, func() func(int) {
			t := oid.NewTree()
			return func(k int) {
				t.AddNode(fresh(k))
				if k%200 == 199 {
					t.Clear()
				}
			}
		}},
		{"trees that are dropped", n / 10, func() func(int) {
			return func(k int) {
				t := oid.NewTree()
				for j := 0; j < 10; j++ {
					t.AddNode(fresh(10*k + j))
				}
				t.GetNextNode(nil, nil, false)
			}
		}},
		{"a window of nodes that moves on", n, func() func(int) {
			t := oid.NewTree()
			return func(k int) {
				t.AddNode([]uint32{1, 3, uint32(k)}).Data = fmt.Sprint(k)
				if k >= 100 {
					t.RemoveNode([]uint32{1, 3, uint32(k - 100)})
				}
			}
		}},
		{"reading a tree", n, func() func(int) {
			t := oid.NewTree()
			for i := 0; i < 60; i++ {
				t.AddNode([]uint32{1, 3, uint32(i % 7), uint32(i)})
			}
			return func(k int) {
				id := []uint32{1, 3, uint32(k % 9), uint32(k) * 2654435761}
				t.GetNode(id)
				t.GetNextNode(id, nil, k%2 == 0)
				t.GetNextNode(nil, id, false)
				t.AddNode(id[:3:3])
				t.RemoveNode(id)
				if k%16 == 0 {
					t.ForRangeLeaves(func([]uint32, *oid.Node) {})
				}
			}
		}},
	}
	run.Serial("trees", len(trees), func(c *mon.Case) {
		x := trees[c.Index]
		keeps(c, x.name, x.n, x.make())
		c.Sig(x.name)
		c.Sample(func() string { return fmt.Sprintf("%s: rounds of %d calls", x.name, x.n) })
	})
	// what was removed is given back, in whatever order it was removed
	run.Serial("removed", run.N(24, 96), func(c *mon.Case) {
		t := oid.NewTree()
		n := 1000 + c.R.IntN(1000)
		id := func(i int) []uint32 {
			switch c.Index % 4 {
			case 0: // siblings
				return []uint32{1, 3, uint32(i)}
			case 1: // each with a leaf of its own
				return []uint32{1, 3, uint32(i), 0}
			case 2: // at the top
				return []uint32{uint32(i)}
			}
			return []uint32{1, uint32(i % 30), uint32(i / 30), 5}
		}
		order := c.R.Perm(n)
		how := []string{"in ascending order", "in descending order", "in random order", "from the middle", "by Clear", "by their top node"}[c.Index/4%6]
		switch c.Index / 4 % 6 {
		case 0:
			sort.Ints(order)
		case 1:
			sort.Sort(sort.Reverse(sort.IntSlice(order)))
		case 3:
			sort.Slice(order, func(i, j int) bool { return abs(order[i]-n/2) < abs(order[j]-n/2) })
		}
		const each = 4096
		keep := c.R.IntN(2) * 10 // nodes that stay
		before := heapNow()
		for i := 0; i < n; i++ {
			t.AddNode(id(i)).Data = make([]byte, each)
		}
		full := heapNow() - before
		if full < int64(n)*each {
			c.Error("the nodes do not show in the heap: %d bytes", full)
		}
		switch c.Index / 4 % 6 {
		case 4:
			t.Clear()
		case 5:
			for i := 0; i < n; i++ {
				t.RemoveNode(id(i)[:1])
			}
		default:
			for _, i := range order[keep:] {
				x := id(i)
				if c.Index%4 == 1 {
					x = x[:3]
				}
				if !t.RemoveNode(x) {
					c.Fail("RemoveNode(%s) = false for a present OID", showOID(x))
				}
			}
		}
		// lists of children may keep their length, nodes and data may not stay
		if left := heapNow() - before; left > int64(keep)*each+int64(n)*200+(128<<10) {
			c.Fail("%d of %d nodes with %d bytes of data each were removed %s, but %d bytes are still in use", n-keep, n, each, how, left)
		}
		runtime.KeepAlive(t)
		c.Event("removals-measured")
		c.Sig("removed", c.Index)
	})
	// the monitor sees a leak of its own
	run.Serial("self-check", 2, func(c *mon.Case) {
		var kept [][]byte
		stop := make(chan int)
		defer close(stop)
		s := leftBehind(8000, func(k int) {
			if c.Index == 0 {
				kept = append(kept, make([]byte, 64))
			} else {
				go func() { <-stop }()
			}
		}, func() {})
		if s == "" {
			c.Error("a planted leak was not noticed")
		}
		runtime.KeepAlive(kept)
		c.Event("self-checks")
	})
	run.Need("heap-measured", 20)
	run.Need("self-checks", 2)
	run.Need("removals-measured", 24)
	run.Need("repeated-calls", 500000)
}

func abs(n int) int {
	if n < 0 {
		return -n
	}
	return n
}
