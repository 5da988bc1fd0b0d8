package props

import (
	"bytes"
	"fmt"
	"math"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"verif/harness/code"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/generics"
	"github.com/alexispb/mygosnmp/hex"
	"github.com/alexispb/mygosnmp/oid"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	reg("C28", c28)
	reg("C29", c29)
	reg("C30", c30)
	reg("C31", c31)
	reg("C32", c32)
}

// longestOID returns the length of the longest OID in a PDU.
func longestOID(p agentx.Pdu) (n int) {
	see := func(id []uint32) { n = max(n, len(id)) }
	switch x := p.Params.(type) {
	case agentx.OpenParams:
		see(x.Oid)
	case agentx.RegisterParams:
		see(x.Subtree)
	case agentx.UnregisterParams:
		see(x.Subtree)
	case agentx.AddAgentCapsParams:
		see(x.Oid)
	case agentx.RemoveAgentCapsParams:
		see(x.Oid)
	}
	for _, r := range p.Ranges {
		see(r.StartOid)
		see(r.EndOid)
	}
	for _, v := range p.Varbinds {
		see(v.Oid)
		if id, ok := v.Value.([]uint32); ok {
			see(id)
		}
	}
	return
}

// c28: a relay decodes a message and sends it on.
func c28(run *mon.Run) {
	run.Rule("Messages (canonical, alternative legal forms, damaged) are decoded; every decoded PDU is encoded again, unchanged and with other ids or the other byte order, and decoded once more. Non-trivial: the library accepted the message and no OID exceeds 128 sub-ids, so the forwarded message was compared; distinct by wire bytes.")
	check := func(c *mon.Case, m Msg, dbg bool) {
		d, e := decPlain, encPlain
		if dbg {
			d = decDbg
			if c.R.IntN(2) == 0 {
				e = encDbg
			}
		}
		p, hok, pok := d.f(m)
		if !hok || !pok {
			c.Event("not-accepted")
			return
		}
		if longestOID(p) > ref.MaxOID {
			c.Event("oid-beyond-128")
			return
		}
		before := ref.Clone(p)
		out, ok := e.f(p)
		if !ok {
			c.Fail("%s refuses the PDU decoded from %s: %s", e.name, m, show(p))
		}
		if len(out) < 20 {
			c.Fail("%s returns %d bytes for the PDU decoded from %s", e.name, len(out), m)
		}
		m2 := split(out)
		q, hok, pok := d.f(m2)
		if !hok || !pok {
			c.Fail("the forwarded message is refused: %s, received as %s", m2, m)
		}
		if diff := ref.Diff(ref.Normal(before, len(m2.P)), q); diff != "" {
			c.Fail("forwarding changes the message: %s; received %s, sent %s", diff, m, m2)
		}
		again, ok := e.f(q)
		if !ok || !bytes.Equal(again, out) {
			c.Fail("forwarding twice is not stable: ok=%v, %s; %s", ok, firstDiff(out, again), m)
		}
		if rp, v, _ := refDecode(m); v == ref.Accept {
			if canon, ok := ref.Encode(rp); ok && bytes.Equal(canon[:20], m.H) && bytes.Equal(canon[20:], m.P) {
				if !bytes.Equal(out, canon) {
					c.Fail("a canonical message is forwarded with other bytes: %s; %s", firstDiff(canon, out), m)
				}
				c.Event("canonical")
			} else {
				c.Event("alternative-form")
			}
		}
		// other ids, other byte order
		t := p
		t.SessionId, t.TransactionId, t.PacketId = gen.U32(c.R), gen.U32(c.R), gen.U32(c.R)
		t.Flags ^= code.FlagNetworkByteOrder
		data, ok := e.f(t)
		if !ok || len(data) < 20 {
			c.Fail("%s refuses the PDU decoded from %s in the other byte order", e.name, m)
		}
		if len(data) != len(out) {
			c.Fail("the other byte order takes %d bytes instead of %d: %s", len(data), len(out), m)
		}
		q, hok, pok = d.f(split(data))
		if !hok || !pok {
			c.Fail("the message translated to the other byte order is refused: %s, received as %s", split(data), m)
		}
		if diff := ref.Diff(ref.Normal(t, len(data)-20), q); diff != "" {
			c.Fail("translation to the other byte order changes the message: %s; received %s", diff, m)
		}
		c.Event("forwarded")
		c.Event(fmt.Sprintf("forwarded-type-%d", p.Tag))
		if len(m.P) > 4096 {
			c.Sig(m.H, len(m.P), m.P[:2048])
		} else {
			c.Sig(m.H, m.P)
		}
		c.Sample(m.String)
	}
	pduFamilies(run, func(c *mon.Case, p agentx.Pdu, dbg bool) {
		var plain func() bool
		if c.R.IntN(3) == 0 {
			plain = func() bool { return c.R.IntN(2) == 0 }
		}
		b, ok := ref.EncodeAlt(p, plain)
		if !ok {
			c.Error("generator produced an invalid PDU: %s", show(p))
		}
		check(c, split(b), dbg)
	})
	wireFamilies(run, check)
	// a chain of relays with different preferences, one PDU value handed on
	run.Cases("chains", run.N(4000, 100000), func(c *mon.Case) {
		p := gen.Pdu(c.R, gen.Opt{MaxList: 12, MaxStr: 120})
		want := ref.Clone(p)
		b, _ := ref.Encode(p)
		for hop := 0; hop < 2+c.R.IntN(12); hop++ {
			d, e := decPlain, encPlain
			if c.R.IntN(4) == 0 {
				d = decDbg
			}
			if c.R.IntN(4) == 0 {
				e = encDbg
			}
			q, hok, pok := d.f(split(b))
			if !hok || !pok {
				c.Fail("hop %d: refused: %s", hop, split(b))
			}
			if diff := ref.Diff(ref.Normal(want, len(b)-20), q); diff != "" {
				c.Fail("hop %d: the message changed: %s", hop, diff)
			}
			if c.R.IntN(2) == 0 {
				q.Flags ^= code.FlagNetworkByteOrder
				want.Flags ^= code.FlagNetworkByteOrder
			}
			q.SessionId = gen.U32(c.R)
			want.SessionId = q.SessionId
			if q.Flags&code.FlagNonDefaultContext != 0 && c.R.IntN(3) == 0 {
				q.Context = gen.Str(c.R, 60)
				want.Context = q.Context
			}
			nb, ok := e.f(q)
			if !ok || len(nb) < 20 {
				c.Fail("hop %d: %s refuses %s", hop, e.name, show(q))
			}
			for i := range b { // the receive buffer is reused
				b[i] = 0xAA
			}
			b = nb
			c.Event("hops")
		}
		c.Sig(b)
	})
	run.Need("forwarded", 100000)
	run.Need("canonical", 50000)
	run.Need("alternative-form", 1000)
	for t := 1; t <= 18; t++ {
		run.Need(fmt.Sprintf("forwarded-type-%d", t), 50)
	}
}

// c29: the predicates on types and flags say what the codec does.
func c29(run *mon.Run) {
	run.Rule("All 256 PDU types and all 256 x 256 pairs of type and flags: the predicates, the header decoders and the encoders must agree with each other and with the table of RFC 2741; all 256 value types likewise. Every case is non-trivial.")
	run.Serial("constants", 1, func(c *mon.Case) {
		for _, x := range namedCodes {
			if x.got != x.want {
				c.Fail("%s is %d, the protocol's code is %d", x.name, x.got, x.want)
			}
			c.Event("constants")
			c.Sig(x.name)
		}
	})
	run.Need("constants", 70)
	for _, rep := range []string{"first", "again"} {
		run.Cases("types-"+rep, 256, func(c *mon.Case) {
			t := agentx.PduTag(c.Index)
			_, known := ref.AllowedFlags[t]
			if t.IsKnown() != known {
				c.Fail("PduTag(%d).IsKnown() = %v", t, t.IsKnown())
			}
			if !known {
				// what an unknown type allows is not defined, only that no
				// codec function accepts it
				c.Event("unknown-types")
			} else {
				c.Event("known-types")
			}
			v := asn.Tag(c.Index)
			if want := ref.IsVarbindTag(v) || v == code.TagSequence; v.IsKnown() != want {
				c.Fail("asn.Tag(%d).IsKnown() = %v", v, v.IsKnown())
			}
			if want := ref.IsVarbindTag(v); v.IsValueTag() != want {
				c.Fail("asn.Tag(%d).IsValueTag() = %v", v, v.IsValueTag())
			}
			c.Sig(rep, c.Index)
		})
		run.Cases("pairs-"+rep, 65536, func(c *mon.Case) {
			t, f := agentx.PduTag(c.Index>>8), agentx.Flags(c.Index)
			allowed, known := ref.AllowedFlags[t]
			okFlags := false
			if known {
				got := t.NotAllowedFlags(f)
				if want := f &^ allowed; got != want {
					c.Fail("PduTag(%d).NotAllowedFlags(%#02x) = %#02x, want %#02x", t, byte(f), byte(got), byte(want))
				}
				okFlags = got == 0
			}
			h := make([]byte, 20)
			h[0], h[1], h[2] = 1, byte(t), byte(f)
			_, ok1 := agentx.DecodePduHeader(h)
			_, ok2 := agentx.DecodePduHeaderDbg(h, nop{})
			p := base(t, false)
			p.Flags = f
			_, ok3 := agentx.EncodePdu(p)
			_, ok4 := agentx.EncodePduDbg(p, nop{})
			if ok1 != okFlags || ok2 != okFlags || ok3 != okFlags || ok4 != okFlags {
				c.Fail("type %d (known: %v) with flags %#02x: allowed is %v, but header decoding gives %v and %v, encoding %v and %v", t, known, byte(f), okFlags, ok1, ok2, ok3, ok4)
			}
			if okFlags {
				c.Event("allowed-pairs")
			} else {
				c.Event("refused-pairs")
			}
			c.Sig(c.Index)
			c.Sample(func() string { return fmt.Sprintf("type %d flags %#02x: %v", t, byte(f), okFlags) })
		})
	}
	run.Need("known-types", 36)
	run.Need("allowed-pairs", 100)
	run.Need("refused-pairs", 60000)
}

type (
	namedInt    int16
	namedUint   uint64
	namedFloat  float32
	namedString string
)

func minMax[T generics.Ordered](c *mon.Case, kind string, x, y T) {
	lo, hi := x, y
	if y < x {
		lo, hi = y, x
	}
	if got := generics.Min(x, y); got != lo {
		c.Fail("Min[%s](%v, %v) = %v", kind, x, y, got)
	}
	if got := generics.Max(x, y); got != hi {
		c.Fail("Max[%s](%v, %v) = %v", kind, x, y, got)
	}
	switch {
	case x < y:
		c.Event(kind + "-ascending")
	case x > y:
		c.Event(kind + "-descending")
	default:
		c.Event(kind + "-equal")
	}
}

// c30: Min and Max.
func c30(run *mon.Run) {
	run.Rule("All pairs of 8-bit values, pairs of boundary, related and random values of every other ordered type (floats other than NaN, strings, named types). Non-trivial: every pair; distinct by pair.")
	run.Cases("bytes", 65536, func(c *mon.Case) {
		minMax(c, "int8", int8(c.Index), int8(c.Index>>8))
		minMax(c, "uint8", uint8(c.Index), uint8(c.Index>>8))
		c.Sig("8", c.Index)
	})
	floats := []float64{0, 1, -1, 0.5, -0.5, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), 1 << 53, 1<<53 + 2, 1e300, 1 << 31, 1 << 32, math.MaxFloat32, 1e-40}
	run.Cases("pairs", run.N(200000, 4000000), func(c *mon.Case) {
		r := c.R
		x, y := gen.U64(r), gen.U64(r)
		switch r.IntN(6) {
		case 0:
			y = x
		case 1:
			y = x + 1
		case 2:
			y = x - 1
		case 3:
			y = x ^ 1<<r.IntN(64)
		case 4:
			y = -x
		}
		minMax(c, "int16", int16(x), int16(y))
		minMax(c, "int32", int32(x), int32(y))
		minMax(c, "int64", int64(x), int64(y))
		minMax(c, "int", int(x), int(y))
		minMax(c, "uint16", uint16(x), uint16(y))
		minMax(c, "uint32", uint32(x), uint32(y))
		minMax(c, "uint64", x, y)
		minMax(c, "uint", uint(x), uint(y))
		minMax(c, "uintptr", uintptr(x), uintptr(y))
		minMax(c, "named-int", namedInt(x), namedInt(y))
		minMax(c, "named-uint", namedUint(x), namedUint(y))
		f, g := gen.Pick(r, floats), gen.Pick(r, floats)
		switch r.IntN(4) {
		case 0:
			g = math.Nextafter(f, gen.Pick(r, floats))
		case 1:
			f, g = float64(int64(x)), float64(int64(y))
		case 2:
			f = r.NormFloat64()
		}
		minMax(c, "float64", f, g)
		minMax(c, "float32", float32(f), float32(g))
		minMax(c, "named-float", namedFloat(f), namedFloat(g))
		s, t := gen.Str(r, 40), gen.Str(r, 40)
		switch r.IntN(5) {
		case 0:
			t = s
		case 1:
			t = s + gen.Str(r, 3)
		case 2:
			t = s[:len(s)/2]
		case 3:
			b := []byte(s)
			if len(b) > 0 {
				b[r.IntN(len(b))] ^= 1 << r.IntN(8)
			}
			t = string(b)
		}
		minMax(c, "string", s, t)
		minMax(c, "named-string", namedString(s), namedString(t))
		c.Sig(x, y, f, g, s, t)
		c.Sample(func() string { return fmt.Sprintf("%d %d; %v %v; %q %q", x, y, f, g, s, t) })
	})
	for _, k := range []string{"int8", "uint8", "int16", "int32", "int64", "int", "uint16", "uint32", "uint64", "uint", "uintptr", "named-int", "named-uint", "float64", "float32", "named-float", "string", "named-string"} {
		run.Need(k+"-ascending", 100)
		run.Need(k+"-descending", 100)
		run.Need(k+"-equal", 100)
	}
}

// agent answers requests from a tree whose leaves carry varbinds.
type agent struct {
	tree *oid.Tree
	buf  []byte // receive buffer, reused for every request
	at   []uint32
	log  bool
}

// serve decodes one request and returns the encoded response.
func (a *agent) serve(req []byte) (resp []byte, err string) {
	if cap(a.buf) < len(req) {
		a.buf = make([]byte, 2*len(req))
	}
	buf := a.buf[:len(req)]
	copy(buf, req)
	dec, enc := decPlain, encPlain
	if a.log {
		dec, enc = decDbg, encDbg
	}
	p, hok, pok := dec.f(split(buf))
	if !hok || !pok {
		return nil, "the agent refuses request " + hx(req)
	}
	// the buffer is used for the next request
	for i := range buf {
		buf[i] = 0x5A
	}
	out := agentx.Pdu{Tag: code.TagResponse, Flags: p.Flags & code.FlagNetworkByteOrder, SessionId: p.SessionId, TransactionId: p.TransactionId, PacketId: p.PacketId}
	out.Params = agentx.ResponseParams{}
	nextOf := func(start, end []uint32, include bool) asn.Varbind {
		a.at = append(a.at[:0], start...) // one variable for the place it is at
		n := a.tree.GetNextNode(a.at, end, include)
		if n == nil {
			return asn.Varbind{Oid: start, Tag: code.TagEndOfMibView}
		}
		id, ok := oidOf(n)
		vb, isvb := n.Data.(asn.Varbind)
		if !ok || !isvb {
			err = "the agent is given a node without value or without end of its parent links"
		}
		return asn.Varbind{Oid: id, Tag: vb.Tag, Value: vb.Value}
	}
	switch p.Tag {
	case code.TagGet:
		for _, r := range p.Ranges {
			vb := asn.Varbind{Oid: r.StartOid, Tag: code.TagNoSuchObject}
			if n := a.tree.GetNode(r.StartOid); n != nil {
				if x, ok := n.Data.(asn.Varbind); ok {
					vb.Tag, vb.Value = x.Tag, x.Value
				}
			}
			out.Varbinds = append(out.Varbinds, vb)
		}
	case code.TagGetNext:
		for _, r := range p.Ranges {
			out.Varbinds = append(out.Varbinds, nextOf(r.StartOid, r.EndOid, r.StartIncluded != 0))
		}
	case code.TagGetBulk:
		b, _ := p.Params.(agentx.GetBulkParams)
		for i, r := range p.Ranges {
			if i < int(b.NonRepeaters) {
				out.Varbinds = append(out.Varbinds, nextOf(r.StartOid, r.EndOid, r.StartIncluded != 0))
			}
		}
		rest := p.Ranges[min(len(p.Ranges), int(b.NonRepeaters)):]
		cur := make([][]uint32, len(rest))
		for k := 0; k < int(b.MaxRepeatitions); k++ {
			for i, r := range rest {
				start, include := r.StartOid, r.StartIncluded != 0
				if k > 0 {
					start, include = cur[i], false
				}
				vb := nextOf(start, r.EndOid, include)
				cur[i] = vb.Oid
				out.Varbinds = append(out.Varbinds, vb)
			}
		}
	default:
		return nil, fmt.Sprintf("the agent sees request type %d", p.Tag)
	}
	if err != "" {
		return nil, err
	}
	resp, ok := enc.f(out)
	if !ok {
		return nil, "the agent cannot encode " + show(out)
	}
	return resp, ""
}

// ask sends a request and returns the varbinds of the response.
func ask(a *agent, req agentx.Pdu, log bool) (vbs []asn.Varbind, err string) {
	dec, enc := decPlain, encPlain
	if log {
		dec, enc = decDbg, encDbg
	}
	b, ok := enc.f(req)
	if !ok || len(b) < 20 {
		return nil, "the manager cannot encode " + show(req)
	}
	resp, err := a.serve(b)
	if err != "" {
		return nil, err
	}
	p, hok, pok := dec.f(split(resp))
	if !hok || !pok {
		return nil, "the manager refuses response " + hx(resp)
	}
	for i := range resp {
		resp[i] = 0xA5
	}
	if p.Tag != code.TagResponse || p.SessionId != req.SessionId || p.TransactionId != req.TransactionId || p.PacketId != req.PacketId {
		return nil, "the response does not match the request: " + show(p)
	}
	return p.Varbinds, ""
}

// mib is a tree of varbinds with its model.
type mib struct {
	tree   *oid.Tree
	leaves []string
	value  map[string]asn.Varbind
	inner  [][]uint32 // OIDs above leaves far down
}

func newMib(c *mon.Case, n int) *mib {
	r := c.R
	m := &mib{tree: oid.NewTree(), value: map[string]asn.Varbind{}}
	model := newModel()
	ids := pool(r, n)
	if r.IntN(6) == 0 { // one deep branch
		id := gen.OIDn(r, 20+r.IntN(100))
		ids = append(ids, id, id[:len(id)-r.IntN(len(id))])
		m.inner = append(m.inner, id[:1+r.IntN(len(id))], id[:len(id)-1], id[:len(id)*2/3])
	}
	for _, id := range ids {
		if len(id) == 0 || len(id) > 120 {
			continue
		}
		if r.IntN(3) == 0 {
			id = append([]uint32{1, 3, 6, 1, gen.Pick(r, []uint32{0, 1, 2, 4, 255, 256})}, id...)
		}
		model.add(id)
		m.tree.AddNode(id)
	}
	m.leaves = model.leaves()
	for _, k := range m.leaves {
		t := gen.Pick(r, ref.VarbindTags[:10])
		vb := asn.Varbind{Tag: t, Value: gen.Value(r, t, gen.Opt{MaxStr: 24})}
		node := m.tree.GetNode(unkey(k))
		if node == nil {
			c.Fail("an added node is not found: %s", showOID(unkey(k)))
		}
		node.Data = vb
		m.value[k] = vb
	}
	return m
}

// walkWire walks one range with the given request kind and judges the result.
func walkWire(m *mib, a *agent, r gen.R, session uint32, start, end []uint32, include bool, bulk int, log bool) (visited int, err string) {
	flags := agentx.Flags(0)
	if r.IntN(2) == 0 {
		flags = code.FlagNetworkByteOrder
	}
	cur, inc := start, include
	want, more := next(m.leaves, start, end, include)
	for packet := uint32(1); ; packet++ {
		req := agentx.Pdu{Tag: code.TagGetNext, Flags: flags, SessionId: session, TransactionId: gen.U32(r), PacketId: packet, Params: agentx.NoParams{}}
		sr := agentx.SearchRange{StartOid: cur, EndOid: end}
		if inc {
			sr.StartIncluded = 1
		}
		req.Ranges = []agentx.SearchRange{sr}
		k := 1
		if bulk > 0 {
			k = bulk
			req.Tag, req.Params = code.TagGetBulk, agentx.GetBulkParams{NonRepeaters: 0, MaxRepeatitions: int16(bulk)}
		}
		vbs, e := ask(a, req, log)
		if e != "" {
			return visited, e
		}
		if len(vbs) != k {
			return visited, fmt.Sprintf("a request for %d varbinds is answered with %d", k, len(vbs))
		}
		for _, vb := range vbs {
			if !more {
				if vb.Tag != code.TagEndOfMibView {
					return visited, fmt.Sprintf("the walk over (%s, %s) goes on with %s after the last leaf", showOID(start), showOID(end), showOID(vb.Oid))
				}
				return visited, ""
			}
			if vb.Tag == code.TagEndOfMibView && !ref.EqOID(vb.Oid, unkey(want)) {
				return visited, fmt.Sprintf("the walk over (%s, %s) ends before %s", showOID(start), showOID(end), showOID(unkey(want)))
			}
			if !ref.EqOID(vb.Oid, unkey(want)) {
				return visited, fmt.Sprintf("the walk over (%s, %s) gives %s, want %s", showOID(start), showOID(end), showOID(vb.Oid), showOID(unkey(want)))
			}
			if v := m.value[want]; v.Tag != vb.Tag || !ref.EqValue(norm(v), vb.Value) {
				return visited, fmt.Sprintf("the value of %s arrives as %s, want %s", showOID(vb.Oid), showVbs([]asn.Varbind{vb}), showVbs([]asn.Varbind{v}))
			}
			visited++
			cur, inc = vb.Oid, false
			want, more = next(m.leaves, cur, end, false)
		}
	}
}

func norm(v asn.Varbind) interface{} {
	if ref.Valueless(v.Tag) {
		return nil
	}
	return v.Value
}

// c31: codec and tree together serve a MIB.
func c31(run *mon.Run) {
	run.Rule("An agent made of the codec and a tree answers encoded Get, GetNext and GetBulk requests of managers (both byte orders, plain and debug functions, reused buffers, several sessions at once, other parts of the tree changing meanwhile); each walk is compared with the model's sorted leaves and values. Non-trivial: a walk that visited at least one leaf; distinct by tree and range.")
	runtime.GOMAXPROCS(max(8, runtime.NumCPU()))
	div := 1
	switch {
	case strings.Contains(run.Variant, "yield"):
		div = 8
	case run.Variant != "plain":
		div = 4
	}
	bounds := func(r gen.R, m *mib) (start, end []uint32) {
		pick := func() []uint32 {
			switch {
			case len(m.leaves) == 0 || r.IntN(6) == 0:
				return gen.OIDn(r, r.IntN(5))
			case len(m.inner) > 0 && r.IntN(2) == 0:
				return gen.Pick(r, m.inner)
			}
			id := append([]uint32(nil), unkey(gen.Pick(r, m.leaves))...)
			switch r.IntN(5) {
			case 0:
				id = id[:r.IntN(len(id)+1)]
			case 1:
				id = append(id, gen.U32(r))
			case 2:
				id[r.IntN(len(id))] += uint32(r.IntN(3)) - 1
			}
			return id
		}
		if r.IntN(3) > 0 {
			start = pick()
		}
		if r.IntN(3) > 0 {
			end = pick()
		}
		return
	}
	run.Cases("walks", run.N(4000, 80000)/div, func(c *mon.Case) {
		m := newMib(c, 1+c.R.IntN(40))
		a := &agent{tree: m.tree, log: c.Index%5 == 0}
		for k := 0; k < 6; k++ {
			start, end := bounds(c.R, m)
			if k == 0 {
				start, end = nil, nil
			}
			bulk := 0
			if k%2 == 1 {
				bulk = 1 + c.R.IntN(12)
			}
			n, err := walkWire(m, a, c.R, 7, start, end, c.R.IntN(2) == 0, bulk, c.Index%7 == 0)
			if err != "" {
				c.Fail("%s; leaves: %s", err, showLeaves(m.leaves))
			}
			if k == 0 && n != len(m.leaves) {
				c.Fail("a full walk visits %d of %d leaves", n, len(m.leaves))
			}
			c.EventN("visited", n)
			if n > 0 {
				c.Event("walks")
				c.Sig(strings.Join(m.leaves, "|"), key(start), key(end))
			}
		}
		c.Sample(func() string { return fmt.Sprintf("%d leaves: %s", len(m.leaves), showLeaves(m.leaves)) })
	})
	// several ranges in one request, exact Get, mixed GetBulk
	run.Cases("requests", run.N(6000, 120000)/div, func(c *mon.Case) {
		r := c.R
		m := newMib(c, 1+r.IntN(30))
		a := &agent{tree: m.tree, log: c.Index%5 == 0}
		req := agentx.Pdu{Flags: gen.Pick(r, []agentx.Flags{0, code.FlagNetworkByteOrder}), SessionId: gen.U32(r), TransactionId: gen.U32(r), PacketId: gen.U32(r), Params: agentx.NoParams{}}
		for i := 0; i <= r.IntN(8); i++ {
			s, e := bounds(r, m)
			req.Ranges = append(req.Ranges, agentx.SearchRange{StartOid: s, EndOid: e, StartIncluded: byte(r.IntN(2))})
		}
		// the include bit of an empty start is not transmitted
		for i := range req.Ranges {
			if len(req.Ranges[i].StartOid) == 0 {
				req.Ranges[i].StartIncluded = 0
			}
		}
		var want []asn.Varbind
		look := func(start, end []uint32, inc bool) asn.Varbind {
			if k, ok := next(m.leaves, start, end, inc); ok {
				v := m.value[k]
				return asn.Varbind{Oid: unkey(k), Tag: v.Tag, Value: norm(v)}
			}
			return asn.Varbind{Oid: start, Tag: code.TagEndOfMibView}
		}
		switch req.Tag = agentx.PduTag(5 + r.IntN(3)); req.Tag {
		case code.TagGet:
			for i := range req.Ranges {
				req.Ranges[i].EndOid, req.Ranges[i].StartIncluded = nil, 0
				k := key(req.Ranges[i].StartOid)
				vb := asn.Varbind{Oid: req.Ranges[i].StartOid, Tag: code.TagNoSuchObject}
				if v, ok := m.value[k]; ok {
					vb.Tag, vb.Value = v.Tag, norm(v)
				}
				want = append(want, vb)
			}
		case code.TagGetNext:
			for _, x := range req.Ranges {
				want = append(want, look(x.StartOid, x.EndOid, x.StartIncluded == 1))
			}
		case code.TagGetBulk:
			b := agentx.GetBulkParams{NonRepeaters: int16(r.IntN(5)), MaxRepeatitions: int16(r.IntN(6))}
			req.Params = b
			nr := min(len(req.Ranges), int(b.NonRepeaters))
			for _, x := range req.Ranges[:nr] {
				want = append(want, look(x.StartOid, x.EndOid, x.StartIncluded == 1))
			}
			cur := append([]agentx.SearchRange(nil), req.Ranges[nr:]...)
			for k := 0; k < int(b.MaxRepeatitions); k++ {
				for i := range cur {
					vb := look(cur[i].StartOid, cur[i].EndOid, cur[i].StartIncluded == 1)
					cur[i].StartOid, cur[i].StartIncluded = vb.Oid, 0
					want = append(want, vb)
				}
			}
		}
		got, err := ask(a, req, c.Index%7 == 0)
		if err != "" {
			c.Fail("%s", err)
		}
		if d := ref.DiffVarbinds(want, got); d != "" {
			c.Fail("request %s over leaves %s is answered wrongly: %s; got %s, want %s", show(req), showLeaves(m.leaves), d, showVbs(got), showVbs(want))
		}
		c.Event("requests")
		c.EventN("answers", len(got))
		c.Sig(strings.Join(m.leaves, "|"), fmt.Sprint(req.Tag, req.Ranges, req.Params))
	})
	old := run.Workers
	run.Workers = 2
	run.Cases("sessions", run.N(400, 8000)/div, func(c *mon.Case) {
		r := c.R
		// the served part lies below 1, the part others change lies below 2
		m := &mib{tree: oid.NewTree(), value: map[string]asn.Varbind{}}
		model := newModel()
		for _, id := range pool(r, 5+r.IntN(30)) {
			if len(id) == 0 || len(id) > 60 {
				continue
			}
			id = append([]uint32{1}, id...)
			model.add(id)
			m.tree.AddNode(id)
		}
		m.leaves = model.leaves()
		for _, k := range m.leaves {
			t := gen.Pick(r, ref.VarbindTags[:10])
			vb := asn.Varbind{Tag: t, Value: gen.Value(r, t, gen.Opt{MaxStr: 24})}
			n := m.tree.GetNode(unkey(k))
			if n == nil {
				c.Fail("an added node is not found: %s", showOID(unkey(k)))
			}
			n.Data = vb
			m.value[k] = vb
		}
		g := 2 + r.IntN(7)
		type job struct {
			start, end []uint32
			bulk       int
			seed       gen.R
		}
		jobs := make([]job, g)
		for i := range jobs {
			j := job{seed: run.Replica(run.Prop, r.Uint64(), "session", i).R}
			if i > 0 {
				j.start, j.end = bounds(r, m)
			}
			if len(j.end) == 0 || j.end[0] > 2 || j.end[0] == 2 {
				j.end = []uint32{2}
			}
			if r.IntN(2) == 0 {
				j.bulk = 1 + r.IntN(9)
			}
			jobs[i] = j
		}
		plan := make([][]uint32, 300)
		for i := range plan {
			plan[i] = []uint32{2, uint32(r.IntN(4)), uint32(r.IntN(3))}[:1+r.IntN(3)]
		}
		var wg sync.WaitGroup
		var left atomic.Int32
		var ready atomic.Int32
		left.Store(int32(g))
		errs := make([]string, g)
		counts := make([]int, g)
		for i := range jobs {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				defer left.Add(-1)
				ready.Add(1)
				for ready.Load() < int32(g) {
					runtime.Gosched()
				}
				a := &agent{tree: m.tree, log: i%4 == 3}
				for k := 0; k < 3; k++ {
					n, err := walkWire(m, a, jobs[i].seed, uint32(i), jobs[i].start, jobs[i].end, k == 1, jobs[i].bulk, i%5 == 4)
					counts[i] += n
					if err != "" {
						errs[i] = err
						return
					}
				}
			}(i)
		}
		wg.Add(1)
		changes := 0
		go func() {
			defer wg.Done()
			for k := 0; left.Load() > 0; k++ {
				id := plan[k%len(plan)]
				if k%3 == 2 {
					m.tree.RemoveNode(id)
				} else {
					m.tree.AddNode(id)
				}
				changes++
				if k%8 == 7 {
					runtime.Gosched()
				}
			}
		}()
		wg.Wait()
		for i := range errs {
			if errs[i] != "" {
				c.Fail("session %d of %d: %s; leaves: %s", i, g, errs[i], showLeaves(m.leaves))
			}
			c.EventN("visited", counts[i])
			c.EventN("concurrent-walks", 3)
			c.Sig(strings.Join(m.leaves, "|"), key(jobs[i].start), key(jobs[i].end), g)
		}
		c.EventN("changes-meanwhile", changes)
	})
	run.Workers = old
	run.Need("visited", int64(20000/div))
	run.Need("requests", 400)
	run.Need("concurrent-walks", 50)
	run.Need("changes-meanwhile", 50)
}

// c32: the helpers keep no state between calls and goroutines.
func c32(run *mon.Run) {
	run.Rule("Goroutines call the helper functions (OID text, parsing, comparison, cloning, concatenation; hex dumps and diffs; names, values, flags, addresses, varbinds, ranges and PDUs as text; value checks) at the same time, with data of their own or with the same slices; each result is compared with the text or value by definition. Race, yield-instrumented and plain builds. Non-trivial: every call; distinct by (function, goroutines, round).")
	runtime.GOMAXPROCS(max(8, runtime.NumCPU()))
	div := 1
	switch {
	case strings.Contains(run.Variant, "yield"):
		div = 8
	case run.Variant != "plain":
		div = 3
	}
	ops := helperOps()
	old := run.Workers
	run.Workers = 2
	rounds := (run.N(len(ops)*30, len(ops)*500) + div - 1) / div
	for _, shared := range []bool{false, true} {
		name := "own-data"
		if shared {
			name = "shared-data"
		}
		run.Cases(name, rounds, func(c *mon.Case) {
			mk := ops[c.Index%len(ops)]
			g := gen.Pick(c.R, []int{2, 3, 8, 16, 24, 40})
			n := 3000 / g
			if run.Variant != "plain" {
				n = 600 / g
			}
			type call struct {
				f    func() string
				want string
			}
			plans := make([][4]call, g)
			for i := range plans {
				for k := range plans[i] {
					if shared && i > 0 {
						plans[i][k] = plans[0][(k+i)%4]
						continue
					}
					m := mk
					if c.R.IntN(4) == 0 { // another function in between
						m = gen.Pick(c.R, ops)
					}
					f, want := m.make(c.R)
					plans[i][k] = call{f, want}
				}
			}
			bad := make([]string, g)
			var ready atomic.Int32
			var wg sync.WaitGroup
			for i := 0; i < g; i++ {
				wg.Add(1)
				go func(i int) {
					defer wg.Done()
					defer func() {
						if p := recover(); p != nil {
							bad[i] = fmt.Sprintf("panic: %v", p)
						}
					}()
					ready.Add(1)
					for ready.Load() < int32(g) {
						runtime.Gosched()
					}
					for k := 0; k < n; k++ {
						x := plans[i][k%4]
						if got := x.f(); got != x.want {
							bad[i] = fmt.Sprintf("call %d gives %q, want %q", k, trunc(got, 300), trunc(x.want, 300))
							return
						}
					}
				}(i)
			}
			wg.Wait()
			for i := range bad {
				if bad[i] != "" {
					c.Fail("%s on %d goroutines at once (%s): %s", mk.name, g, name, bad[i])
				}
			}
			c.EventN("calls", g*n)
			c.Event(mk.name)
			c.Sig(name, mk.name, g, c.Index)
			c.Sample(func() string { return fmt.Sprintf("%s, %d goroutines, %d calls each", mk.name, g, n) })
		})
	}
	run.Workers = old
	run.Need("calls", 10000)
	for _, o := range ops {
		run.Need(o.name, 2)
	}
}

type helperOp = struct {
	name string
	make func(r gen.R) (func() string, string)
}

// helperOps are the hot operations without the codec, and some more.
func helperOps() (ops []helperOp) {
	for _, o := range hotOps {
		if !strings.Contains(o.name, "coding") && !strings.Contains(o.name, "refusing") {
			ops = append(ops, helperOp(o))
		}
	}
	spare := func(id []uint32) []uint32 { // some capacity behind the OID
		return append(make([]uint32, 0, len(id)+4), id...)
	}
	ops = append(ops,
		helperOp{"comparing OIDs", func(r gen.R) (func() string, string) {
			x := gen.OIDn(r, r.IntN(12))
			y := append(append([]uint32(nil), x[:r.IntN(len(x)+1)]...), gen.OIDn(r, r.IntN(3))...)
			cmp := strings.Compare(key(x), key(y))
			return func() string {
					return fmt.Sprint(oid.Compare(x, y), oid.Lt(x, y), oid.Le(x, y), oid.Eq(x, y), oid.Ne(x, y), oid.Ge(x, y), oid.Gt(x, y))
				},
				fmt.Sprint(cmp, cmp < 0, cmp <= 0, cmp == 0, cmp != 0, cmp >= 0, cmp > 0)
		}},
		helperOp{"cloning OIDs", func(r gen.R) (func() string, string) {
			x := spare(gen.OIDn(r, 1+r.IntN(12)))
			return func() string {
				y := oid.Clone(x)
				s := key(y)
				for i := range y {
					y[i] = 0xDEAD
				}
				return s
			}, key(x)
		}},
		helperOp{"concatenating OIDs", func(r gen.R) (func() string, string) {
			x, y := spare(gen.OIDn(r, r.IntN(12))), spare(gen.OIDn(r, 1+r.IntN(4)))
			return func() string {
				z := oid.Cat(x, y...)
				s := key(z)
				for i := range z {
					z[i] = 0xDEAD
				}
				return s
			}, key(x) + key(y)
		}},
		helperOp{"testing OID prefixes", func(r gen.R) (func() string, string) {
			x := gen.OIDn(r, 2+r.IntN(12))
			y := append([]uint32(nil), x[:1+r.IntN(len(x))]...)
			z := append([]uint32(nil), y...)
			z[len(z)-1]++
			return func() string { return fmt.Sprint(oid.HasPrefix(x, y...), oid.HasPrefix(x, z...)) }, "true false"
		}},
		helperOp{"OID text into a builder", func(r gen.R) (func() string, string) {
			x, y := gen.OIDn(r, 1+r.IntN(9)), gen.OIDn(r, 1+r.IntN(9))
			return func() string {
				var sb strings.Builder
				oid.Fprint(&sb, x)
				sb.WriteByte(' ')
				oid.Fprint(&sb, y)
				return sb.String()
			}, refText(x) + " " + refText(y)
		}},
		helperOp{"refusing OID text", func(r gen.R) (func() string, string) {
			s := refText(gen.OIDn(r, 1+r.IntN(9))) + gen.Pick(r, []string{".", "..1", ".x", ".4294967296", " ", ".-1"})
			return func() string {
				p, _ := mon.Try(func() { oid.Parse(s) })
				return fmt.Sprint(p != nil)
			}, "true"
		}},
		helperOp{"parsing OID text and changing the result", func(r gen.R) (func() string, string) {
			x := gen.OIDn(r, 1+r.IntN(9))
			s := refText(x)
			return func() string {
				y := oid.Parse(s)
				k := key(y)
				for i := range y {
					y[i] = 0xDEAD
				}
				return k
			}, key(x)
		}},
		helperOp{"dumping parts", func(r gen.R) (func() string, string) {
			d := gen.Bytes(r, 1+r.IntN(60))
			i := r.IntN(len(d) + 1)
			j := i + r.IntN(len(d)-i+1)
			return func() string { return hex.DumpSub("#", d, i, j) + "|" + hex.DumpTail("", d, len(d)-i) },
				strings.Join(dumpLinesWith("#", d, i, j), "\n") + "|" + strings.Join(dumpLinesWith("", d, i, len(d)), "\n")
		}},
		helperOp{"predefined names", func(r gen.R) (func() string, string) {
			return func() string {
				return oid.String(oid.Name["sysUpTime"]) + " " + oid.String(oid.Name["ifDescr"]) + " " + oid.String(oid.Name["enterprises"])
			}, "1.3.6.1.2.1.1.3 1.3.6.1.2.1.2.2.1.2 1.3.6.1.4.1"
		}},
		helperOp{"min and max", func(r gen.R) (func() string, string) {
			x, y := int64(gen.U64(r)), int64(gen.U64(r))
			lo, hi := x, y
			if y < x {
				lo, hi = y, x
			}
			return func() string { return fmt.Sprint(generics.Min(x, y), generics.Max(x, y)) }, fmt.Sprint(lo, hi)
		}},
		helperOp{"separate trees", func(r gen.R) (func() string, string) {
			ids := [][]uint32{gen.OIDn(r, 1+r.IntN(5)), gen.OIDn(r, 1+r.IntN(5)), gen.OIDn(r, 1+r.IntN(5))}
			m := newModel()
			for _, id := range ids {
				m.add(id)
			}
			want := strings.Join(m.leaves(), "|")
			return func() string {
				t := oid.NewTree()
				for _, id := range ids {
					t.AddNode(id)
				}
				var l []string
				t.ForRangeLeaves(func(id []uint32, _ *oid.Node) { l = append(l, key(id)) })
				t.Clear()
				return strings.Join(l, "|")
			}, want
		}},
	)
	return ops
}
