package props

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"verif/harness/code"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/hex"
	"github.com/alexispb/mygosnmp/ipa"
	"github.com/alexispb/mygosnmp/oid"
	"github.com/alexispb/mygosnmp/pduerror"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	reg("C09", c09)
	reg("C10", c10)
	reg("C11", c11)
	reg("C11cold", c11cold)
	NoDict["C11cold"] = true
}

// cell is one piece of mutable memory reachable from a PDU.
type cell struct {
	name string
	u    *[]uint32
	b    *[]byte
}

// cells lists the mutable memory of a PDU. Interface-held slices are reached
// through copies of their headers, which share the elements.
func cells(p *agentx.Pdu) (out []cell) {
	ids := func(name string, id []uint32) {
		if cap(id) > 0 {
			c := id
			out = append(out, cell{name: name, u: &c})
		}
	}
	switch x := p.Params.(type) {
	case agentx.OpenParams:
		ids("Params.Oid", x.Oid)
	case agentx.RegisterParams:
		ids("Params.Subtree", x.Subtree)
	case agentx.UnregisterParams:
		ids("Params.Subtree", x.Subtree)
	case agentx.AddAgentCapsParams:
		ids("Params.Oid", x.Oid)
	case agentx.RemoveAgentCapsParams:
		ids("Params.Oid", x.Oid)
	}
	for i := range p.Ranges {
		ids(fmt.Sprintf("Ranges[%d].StartOid", i), p.Ranges[i].StartOid)
		ids(fmt.Sprintf("Ranges[%d].EndOid", i), p.Ranges[i].EndOid)
	}
	for i := range p.Varbinds {
		ids(fmt.Sprintf("Varbinds[%d].Oid", i), p.Varbinds[i].Oid)
		switch v := p.Varbinds[i].Value.(type) {
		case []uint32:
			ids(fmt.Sprintf("Varbinds[%d].Value", i), v)
		case []byte:
			if cap(v) > 0 {
				b := v
				out = append(out, cell{name: fmt.Sprintf("Varbinds[%d].Value", i), b: &b})
			}
		}
	}
	return
}

func (c cell) full() string {
	if c.u != nil {
		return key((*c.u)[:cap(*c.u)])
	}
	return string((*c.b)[:cap(*c.b)])
}

func (c cell) scribble(n int) {
	if c.u != nil {
		_ = append(*c.u, 0xA0A0A0A0)
		f := (*c.u)[:cap(*c.u)]
		for i := range f {
			f[i] = 0x5C000000 + uint32(n)<<12 + uint32(i)
		}
		return
	}
	_ = append(*c.b, 0xA0)
	f := (*c.b)[:cap(*c.b)]
	for i := range f {
		f[i] = byte(0x5C + 7*n + i)
	}
}

// roomyPdu copies a PDU so that each slice has spare capacity with canaries.
func roomyPdu(r gen.R, p agentx.Pdu) agentx.Pdu {
	id := func(x []uint32) []uint32 {
		if x == nil {
			return nil
		}
		n := len(x)
		y := make([]uint32, n+r.IntN(8))
		copy(y, x)
		for i := n; i < len(y); i++ {
			y[i] = 0xCAFE0000 + uint32(i)
		}
		return y[:n]
	}
	p = ref.Clone(p)
	switch x := p.Params.(type) {
	case agentx.OpenParams:
		x.Oid = id(x.Oid)
		p.Params = x
	case agentx.RegisterParams:
		x.Subtree = id(x.Subtree)
		p.Params = x
	case agentx.UnregisterParams:
		x.Subtree = id(x.Subtree)
		p.Params = x
	case agentx.AddAgentCapsParams:
		x.Oid = id(x.Oid)
		p.Params = x
	case agentx.RemoveAgentCapsParams:
		x.Oid = id(x.Oid)
		p.Params = x
	}
	if p.Ranges != nil {
		rs := make([]agentx.SearchRange, len(p.Ranges)+r.IntN(4))
		for i := range rs {
			if i < len(p.Ranges) {
				rs[i] = agentx.SearchRange{StartOid: id(p.Ranges[i].StartOid), EndOid: id(p.Ranges[i].EndOid), StartIncluded: p.Ranges[i].StartIncluded}
			} else {
				rs[i] = agentx.SearchRange{StartOid: []uint32{9, 9}, StartIncluded: 7}
			}
		}
		p.Ranges = rs[:len(p.Ranges)]
	}
	if p.Varbinds != nil {
		vs := make([]asn.Varbind, len(p.Varbinds)+r.IntN(4))
		for i := range vs {
			if i >= len(p.Varbinds) {
				vs[i] = asn.Varbind{Oid: []uint32{8, 8}, Tag: code.TagOctetString, Value: "canary"}
				continue
			}
			vs[i] = asn.Varbind{Oid: id(p.Varbinds[i].Oid), Tag: p.Varbinds[i].Tag, Value: p.Varbinds[i].Value}
			switch v := p.Varbinds[i].Value.(type) {
			case []uint32:
				vs[i].Value = id(v)
			case []byte:
				if v != nil {
					n := len(v)
					b := make([]byte, n+r.IntN(9))
					copy(b, v)
					for k := n; k < len(b); k++ {
						b[k] = 0xCA
					}
					vs[i].Value = b[:n]
				}
			}
		}
		p.Varbinds = vs[:len(p.Varbinds)]
	}
	return p
}

// snapshot captures a PDU with all memory it references, spare capacity too.
type snapshot struct {
	pdu    agentx.Pdu
	cells  []string
	names  []string
	ranges []agentx.SearchRange
	vbs    []asn.Varbind
}

func snap(p *agentx.Pdu) *snapshot {
	s := &snapshot{pdu: ref.Clone(*p)}
	for _, c := range cells(p) {
		s.cells = append(s.cells, c.full())
		s.names = append(s.names, c.name)
	}
	full := agentx.Pdu{Ranges: p.Ranges[:cap(p.Ranges)], Varbinds: p.Varbinds[:cap(p.Varbinds)]}
	full = ref.Clone(full)
	s.ranges, s.vbs = full.Ranges, full.Varbinds
	return s
}

func (s *snapshot) diff(p *agentx.Pdu) string {
	if d := ref.Diff(s.pdu, *p); d != "" {
		return d
	}
	if (s.pdu.Ranges == nil) != (p.Ranges == nil) || (s.pdu.Varbinds == nil) != (p.Varbinds == nil) {
		return "a nil list became non-nil or the reverse"
	}
	cs := cells(p)
	if len(cs) != len(s.cells) {
		return "slices were replaced"
	}
	for i, c := range cs {
		if c.full() != s.cells[i] {
			return fmt.Sprintf("spare capacity of %s was written to", c.name)
		}
	}
	if d := ref.DiffRanges(s.ranges, p.Ranges[:cap(p.Ranges)]); d != "" {
		return "spare capacity of Ranges: " + d
	}
	if d := ref.DiffVarbinds(s.vbs, p.Varbinds[:cap(p.Varbinds)]); d != "" {
		return "spare capacity of Varbinds: " + d
	}
	return ""
}

// rxbuf is one receive buffer holding a message with canaries around it.
type rxbuf struct {
	all, want []byte
	m         Msg
}

func newRx(r gen.R, m Msg) *rxbuf {
	pre, mid, post := r.IntN(9), r.IntN(3)*r.IntN(5), r.IntN(33)
	b := &rxbuf{all: make([]byte, pre+len(m.H)+mid+len(m.P)+post)}
	for i := range b.all {
		b.all[i] = byte(0xE0 + i%13)
	}
	copy(b.all[pre:], m.H)
	at := pre + len(m.H) + mid
	copy(b.all[at:], m.P)
	b.m = Msg{b.all[pre : pre+len(m.H)], b.all[at : at+len(m.P)]}
	b.want = append([]byte(nil), b.all...)
	return b
}

func c09(run *mon.Run) {
	run.Rule("Decoding: the message lies in a buffer with canaries; after decoding the buffer must be unchanged, then buffer, other decoded PDUs and each slice of the PDU (over its full capacity) are overwritten and everything else is compared with the reference. Encoding: PDU slices have spare capacity with canaries; the PDU must be unchanged, then PDU and outputs are overwritten in turn. Non-trivial: a PDU with two or more separate pieces of memory; distinct by message.")
	decodeInto := func(dbg bool, m Msg) (p agentx.Pdu, ok bool) {
		if dbg {
			p, ok = agentx.DecodePduHeaderDbg(m.H, nop{})
			return p, ok && agentx.DecodePduPayloadDbg(&p, m.P, nop{})
		}
		p, ok = agentx.DecodePduHeader(m.H)
		return p, ok && agentx.DecodePduPayload(&p, m.P)
	}
	decoding := func(c *mon.Case, b1 []byte) {
		r := c.R
		dbg := r.IntN(4) == 0
		msg := split(b1)
		want, v, why := refDecode(Msg{bytes.Clone(msg.H), bytes.Clone(msg.P)})
		if v != ref.Accept {
			c.Error("bad seed: %s", why)
		}
		rx := newRx(r, msg)
		p, ok := decodeInto(dbg, rx.m)
		if !ok {
			return // another property's business
		}
		if !bytes.Equal(rx.all, rx.want) {
			c.Fail("decoding changed the receive buffer (%s) for %s", firstDiff(rx.want, rx.all), msg)
		}
		keep := func(what string) {
			if d := ref.Diff(want, p); d != "" {
				c.Fail("decoded PDU changed %s: %s; message %s", what, d, msg)
			}
		}
		if ref.Diff(want, p) != "" {
			return // wrong from the start: not this property
		}
		// the next message arrives in the same buffer
		b2, _ := ref.Encode(gen.Pdu(r, gen.SmallOpt))
		if r.IntN(2) == 0 {
			b2 = append([]byte(nil), b1...)
			for i := 20; i < len(b2); i++ {
				b2[i] ^= byte(r.IntN(2))
			}
		}
		saved := p
		for i := range rx.all {
			rx.all[i] = byte(0x11 * (1 + i%15))
		}
		keep("when the receive buffer was overwritten")
		p2, ok2 := decodeInto(r.IntN(4) == 0, split(b2))
		keep("when another message was decoded")
		m1 := split(bytes.Clone(b1))
		p3, ok3 := decodeInto(r.IntN(4) == 0, m1)
		keep("when the same message was decoded again")
		// the same variable is reused for the next message; the saved copy stays
		reuse := p3
		if ok3 {
			if h, hok := agentx.DecodePduHeader(split(b2).H); hok {
				reuse.Tag, reuse.Flags, reuse.PayloadSize = h.Tag, h.Flags, h.PayloadSize
				agentx.DecodePduPayload(&reuse, split(b2).P)
				if d := ref.Diff(want, p3); d != "" {
					c.Fail("a saved PDU changed when the next message was decoded into the same variable: %s; message %s then %s", d, msg, split(b2))
				}
				keep("when the next message was decoded into a copy")
				c.Event("reused-variables")
			}
		}
		if !bytes.Equal(m1.H, b1[:20]) || !bytes.Equal(m1.P, b1[20:]) {
			c.Fail("decoding changed its input bytes for %s", msg)
		}
		// other PDUs are overwritten completely
		if ok2 {
			scribbleAll(&p2)
			keep("when another decoded PDU was overwritten")
		}
		if ok3 {
			scribbleAll(&p3)
			keep("when a second decoding of the same bytes was overwritten")
		}
		if d := ref.Diff(want, saved); d != "" {
			c.Fail("saved copy changed: %s", d)
		}
		// each piece of memory of this PDU is overwritten in turn
		cs := cells(&p)
		exp := make([]string, len(cs))
		for i := range cs {
			exp[i] = cs[i].full()
		}
		order := r.Perm(len(cs))
		for n, i := range order {
			if n > 24 {
				break
			}
			cs[i].scribble(i)
			exp[i] = cs[i].full()
			for j := range cs {
				if cs[j].full() != exp[j] {
					c.Fail("writing or appending to %s changed %s; message %s", cs[i].name, cs[j].name, msg)
				}
			}
			c.Event("pieces-overwritten")
		}
		// growing the lists in place
		fresh, okf := decodeInto(dbg, split(bytes.Clone(b1)))
		if okf {
			other, oko := decodeInto(dbg, split(bytes.Clone(b1)))
			_ = append(fresh.Varbinds, asn.Varbind{Oid: []uint32{7}, Tag: code.TagNull})
			_ = append(fresh.Ranges, agentx.SearchRange{StartOid: []uint32{7}})
			fv, fr := fresh.Varbinds[:cap(fresh.Varbinds)], fresh.Ranges[:cap(fresh.Ranges)]
			for i := range fv {
				fv[i] = asn.Varbind{Oid: []uint32{66}, Tag: 99, Value: "x"}
			}
			for i := range fr {
				fr[i] = agentx.SearchRange{StartIncluded: 99}
			}
			if oko {
				if d := ref.Diff(want, other); d != "" {
					c.Fail("changing the lists of one decoded PDU changed another: %s; message %s", d, msg)
				}
			}
		}
		c.Event("decodes")
		if len(cs) > 1 {
			c.Sig("d", b1)
		}
		c.Sample(func() string { return fmt.Sprintf("%s (%d pieces)", msg, len(cs)) })
	}
	encoding := func(c *mon.Case, src agentx.Pdu) {
		r := c.R
		fn := encPlain
		if r.IntN(4) == 0 {
			fn = encDbg
		}
		p := roomyPdu(r, src)
		before := snap(&p)
		d1, ok := fn.f(p)
		if d := before.diff(&p); d != "" {
			c.Fail("%s changed its argument: %s; PDU %s", fn.name, d, show(src))
		}
		want, wok := ref.Encode(src)
		c.Event("encodes")
		if !ok || !wok || !bytes.Equal(d1, want) {
			c.Event("encodes-refused")
			return
		}
		q := roomyPdu(r, gen.Pdu(r, gen.SmallOpt))
		if r.IntN(2) == 0 {
			q = roomyPdu(r, src)
		}
		wq, _ := ref.Encode(q)
		d2, ok2 := fn.f(q)
		if !bytes.Equal(d1, want) {
			c.Fail("%s: the bytes returned first changed when another PDU was encoded (%s); PDU %s then %s", fn.name, firstDiff(want, d1), show(src), show(q))
		}
		d3, ok3 := fn.f(p)
		if !bytes.Equal(d1, want) {
			c.Fail("%s: the bytes returned first changed when the same PDU was encoded again; PDU %s", fn.name, show(src))
		}
		// overwriting returned bytes changes neither the PDU nor other results
		if ok2 {
			fillBytes(d2, 0x77)
			if !bytes.Equal(d1, want) {
				c.Fail("%s: overwriting the encoding of another PDU changed this one; PDU %s", fn.name, show(src))
			}
			if d4, ok4 := fn.f(q); ok4 && !bytes.Equal(d4, wq) {
				c.Fail("%s: overwriting returned bytes changed what the PDU encodes to (%s); PDU %s", fn.name, firstDiff(wq, d4), show(q))
			}
		}
		if ok3 {
			fillBytes(d3, 0x55)
			if !bytes.Equal(d1, want) {
				c.Fail("%s: two encodings of a PDU share memory; PDU %s", fn.name, show(src))
			}
		}
		if d := before.diff(&p); d != "" {
			c.Fail("%s: overwriting returned bytes changed the PDU: %s; PDU %s", fn.name, d, show(src))
		}
		scribbleAll(&p)
		if !bytes.Equal(d1, want) {
			c.Fail("%s: modifying the PDU changed the bytes returned earlier (%s); PDU %s", fn.name, firstDiff(want, d1), show(src))
		}
		if len(cells(&p)) > 1 {
			c.Sig("e", want)
		}
		c.Sample(func() string { return show(src) })
	}
	for _, fam := range Families(run, run.N(40000, 1000000), run.N(3, 1)) {
		fam := fam
		if strings.Contains(fam.Name, "large") {
			continue
		}
		run.Cases("decode-"+fam.Name, fam.N, func(c *mon.Case) {
			p := fam.Make(c.Index, c.R)
			b, ok := ref.EncodeAlt(p, func() bool { return c.R.IntN(3) == 0 })
			if !ok {
				c.Error("generator produced an invalid PDU")
			}
			decoding(c, b)
		})
		run.Cases("encode-"+fam.Name, fam.N, func(c *mon.Case) { encoding(c, fam.Make(c.Index, c.R)) })
	}
	run.Cases("encode-cluttered", run.N(20000, 300000), func(c *mon.Case) { encoding(c, gen.Clutter(c.R, gen.Pdu(c.R, gen.SmallOpt))) })
	run.Cases("encode-refused", run.N(20000, 300000), func(c *mon.Case) { encoding(c, gen.Break(c.R, gen.Pdu(c.R, gen.SmallOpt))) })
	run.Cases("decode-many-varbinds", run.N(3000, 60000), func(c *mon.Case) {
		p := base(gen.Pick(c.R, []agentx.PduTag{8, 12, 14, 15, 18}), c.R.IntN(2) == 0)
		p.Varbinds = gen.Varbinds(c.R, 2+c.R.IntN(8), gen.SmallOpt)
		for i := range p.Varbinds { // mostly values with memory of their own
			if c.R.IntN(3) > 0 {
				t := gen.Pick(c.R, []asn.Tag{code.TagOpaque, code.TagObjectId, code.TagOctetString})
				p.Varbinds[i].Tag, p.Varbinds[i].Value = t, gen.Value(c.R, t, gen.SmallOpt)
			}
			if c.R.IntN(3) == 0 { // repeated contents
				p.Varbinds[i] = ref.CloneVarbind(p.Varbinds[0])
			}
		}
		b, ok := ref.Encode(p)
		if !ok {
			c.Error("invalid PDU")
		}
		decoding(c, b)
	})
	// results kept over many later calls: a window of small encodings and
	// decoded PDUs, compared with the reference at the end
	run.Serial("retained", run.N(4, 40), func(c *mon.Case) {
		const n = 25000
		type kept struct {
			want []byte
			data []byte
			pdu  agentx.Pdu
			ok   bool
		}
		ks := make([]kept, 0, n)
		pool := make([]agentx.Pdu, 64)
		wire := make([][]byte, len(pool))
		for i := range pool {
			pool[i] = gen.PduOf(c.R, agentx.PduTag(1+i%18), gen.Opt{MaxList: 3, MaxStr: 12})
			wire[i], _ = ref.Encode(pool[i])
		}
		for k := 0; k < n; k++ {
			i := c.R.IntN(len(pool))
			var x kept
			x.want = wire[i]
			if k%32 == 7 {
				x.data, _ = agentx.EncodePduDbg(pool[i], nop{})
			} else {
				x.data, _ = agentx.EncodePdu(pool[i])
			}
			if !bytes.Equal(x.data, x.want) {
				return // wrong from the start: not this property
			}
			x.pdu, x.ok = decodeInto(k%32 == 9, split(wire[i]))
			ks = append(ks, x)
		}
		if c.Index%2 == 0 { // results live as long as the caller wants
			runtime.GC()
			time.Sleep(1300 * time.Millisecond)
			runtime.GC()
			c.Event("waits")
		}
		norm := make(map[*byte]agentx.Pdu, len(pool))
		for i := range pool {
			norm[&wire[i][0]] = ref.Normal(pool[i], len(wire[i])-20)
		}
		for k, x := range ks {
			if !bytes.Equal(x.data, x.want) {
				c.Fail("encoding number %d of %d changed while later PDUs were encoded: %s", k, n, firstDiff(x.want, x.data))
			}
			if x.ok {
				if d := ref.Diff(norm[&x.want[0]], x.pdu); d != "" {
					c.Fail("PDU number %d of %d changed while later messages were decoded: %s", k, n, d)
				}
			}
		}
		// and each result is separate memory
		for k := range ks {
			fillBytes(ks[k].data, byte(k))
		}
		for k := range ks {
			for _, v := range ks[k].data {
				if v != byte(k) {
					c.Fail("encoding number %d of %d shares memory with another one", k, n)
				}
			}
		}
		c.EventN("retained", 2*n)
	})
	// the same with messages of up to a megabyte, of one size or of mixed
	// ones: buffers and values from size-dependent pools
	run.Serial("retained-large", run.N(36, 180), func(c *mon.Case) {
		r := c.R
		top := []int{2000, 5000, 17000, 66000, 270000, 1100000}[c.Index%6]
		n := map[bool]int{true: 24, false: 10}[top < 100000]
		type kept struct {
			src, norm  agentx.Pdu
			want, data []byte
			pdu        agentx.Pdu
			ok         bool
		}
		ks := make([]kept, 0, n)
		for k := 0; k < n; k++ {
			size := top - 4*r.IntN(1+top/8)
			if c.Index/6%2 == 1 {
				size = 16 + r.IntN(top)
			}
			var x kept
			switch r.IntN(4) {
			case 0:
				x.src = placeStr(r.IntN(5), r.IntN(2) == 0, string(gen.Bytes(r, size)))
			case 1:
				x.src = base(code.TagResponse, r.IntN(2) == 0)
				x.src.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3}, Tag: code.TagOpaque, Value: gen.Bytes(r, size)}}
			case 2:
				x.src = base(code.TagGet, r.IntN(2) == 0)
				x.src.Ranges = make([]agentx.SearchRange, size/28)
				for i := range x.src.Ranges {
					x.src.Ranges[i] = agentx.SearchRange{StartOid: []uint32{r.Uint32(), 7, 8}, EndOid: []uint32{r.Uint32(), 9}}
				}
			default:
				x.src = base(code.TagTestSet, r.IntN(2) == 0)
				x.src.Varbinds = make([]asn.Varbind, size/40)
				for i := range x.src.Varbinds {
					t := []asn.Tag{code.TagOpaque, code.TagObjectId, code.TagOctetString}[i%3]
					x.src.Varbinds[i] = asn.Varbind{Oid: []uint32{r.Uint32(), 5, 300}, Tag: t, Value: gen.Value(r, t, gen.Opt{MaxStr: 20})}
				}
			}
			var wok bool
			if x.want, wok = ref.Encode(x.src); !wok {
				c.Error("invalid PDU")
			}
			fn := encPlain
			if r.IntN(8) == 0 && size < 20000 {
				fn = encDbg
			}
			x.norm = ref.Clone(ref.Normal(x.src, len(x.want)-20))
			before := ref.Clone(x.src)
			if x.data, x.ok = fn.f(x.src); !x.ok || !bytes.Equal(x.data, x.want) {
				return // wrong from the start: not this property
			}
			if d := ref.Diff(before, x.src); d != "" {
				c.Fail("encoding changed its argument: %s", d)
			}
			rx := bytes.Clone(x.want)
			if x.pdu, x.ok = decodeInto(fn.name != encPlain.name, split(rx)); !x.ok {
				return
			}
			if !bytes.Equal(rx, x.want) {
				c.Fail("decoding changed the receive buffer: %s", firstDiff(x.want, rx))
			}
			fillBytes(rx, byte(k))
			ks = append(ks, x)
			for j := range ks {
				if !bytes.Equal(ks[j].data, ks[j].want) {
					c.Fail("encoding number %d (%d bytes) changed while PDU number %d was encoded and decoded: %s", j, len(ks[j].want), k, firstDiff(ks[j].want, ks[j].data))
				}
			}
		}
		check := func(what string) {
			for j, x := range ks {
				if d := ref.Diff(x.norm, x.pdu); d != "" {
					c.Fail("PDU number %d (%d bytes) changed %s: %.300s", j, len(x.want), what, d)
				}
			}
		}
		check("while later messages were handled")
		for k := range ks {
			fillBytes(ks[k].data, byte(k+1))
		}
		for k := range ks {
			for _, v := range ks[k].data {
				if v != byte(k+1) {
					c.Fail("encoding number %d (%d bytes) shares memory with another one", k, len(ks[k].data))
				}
			}
		}
		check("when the encodings were overwritten")
		for k := range ks {
			if k%2 == 0 {
				scribbleAll(&ks[k].pdu)
				ks[k].norm = ref.Clone(ks[k].pdu)
			}
		}
		for j, x := range ks {
			if d := ref.Diff(x.norm, x.pdu); j%2 == 1 && d != "" {
				c.Fail("PDU number %d (%d bytes) changed when other PDUs were overwritten: %.300s", j, len(x.want), d)
			}
		}
		c.EventN("retained-large", len(ks))
		c.Sig("large", c.Index)
	})
	// rejected messages leave the buffer alone too
	for _, fam := range WireFamilies(run, run.N(30000, 600000), run.N(40, 4)) {
		fam := fam
		run.Cases("buffer-"+fam.Name, fam.N, func(c *mon.Case) {
			m := fam.Make(c.Index, c.R)
			rx := newRx(c.R, m)
			_, ok := decodeInto(c.R.IntN(4) == 0, rx.m)
			if !bytes.Equal(rx.all, rx.want) {
				c.Fail("decoding changed the receive buffer (%s) for %s", firstDiff(rx.want, rx.all), m)
			}
			c.Event(fmt.Sprintf("buffers-ok-%v", ok))
		})
	}
	run.Need("decodes", 20000)
	run.Need("pieces-overwritten", 20000)
	run.Need("encodes", 20000)
	run.Need("buffers-ok-false", 5000)
	run.Need("retained-large", 300)
}

func fillBytes(b []byte, v byte) {
	b = b[:cap(b)]
	for i := range b {
		b[i] = v
	}
}

func scribbleAll(p *agentx.Pdu) {
	for i, c := range cells(p) {
		c.scribble(i)
	}
	for i := range p.Ranges {
		p.Ranges[i] = agentx.SearchRange{StartOid: []uint32{4, 4}, StartIncluded: 9}
	}
	for i := range p.Varbinds {
		p.Varbinds[i] = asn.Varbind{Oid: []uint32{5, 5}, Tag: code.TagOctetString, Value: "changed"}
	}
	p.Context, p.Params = "changed", agentx.NoParams{}
}

// ---- C10: no hidden state ----

// carried clears the fields the message does not carry.
func carried(p agentx.Pdu) agentx.Pdu {
	if p.Flags&code.FlagNonDefaultContext == 0 {
		p.Context = ""
	}
	if !ref.HasRanges[p.Tag] {
		p.Ranges = nil
	}
	if !ref.HasVarbinds[p.Tag] {
		p.Varbinds = nil
	}
	return p
}

func c10(run *mon.Run) {
	run.Rule("Random sequences of encodes and decodes (valid, refused, malformed, debug and plain, into fresh PDUs and into one PDU variable that keeps the contents of earlier messages) are run in one process; each result is compared with the reference, and a set of fixed messages is encoded and decoded again between the others. Non-trivial: a call whose predecessor had another type, flags or outcome; distinct by (predecessor, call).")
	type golden struct {
		pdu  agentx.Pdu
		data []byte
		norm agentx.Pdu
	}
	makeGolden := func(r gen.R, n int) (out []golden) {
		for len(out) < n {
			p := gen.PduOf(r, agentx.PduTag(1+len(out)%18), gen.SmallOpt)
			b, ok := ref.Encode(p)
			if !ok {
				panic("golden")
			}
			out = append(out, golden{p, b, ref.Normal(p, len(b)-20)})
		}
		return
	}
	sequence := func(c *mon.Case, steps int) {
		r := c.R
		gs := makeGolden(r, 18)
		var dirty agentx.Pdu // reused by all decodes of this sequence
		prev := "start"
		note := func(op string) {
			c.Sig(prev, op)
			prev = op
		}
		fail := func(what, d, detail string) {
			c.Fail("%s after %s: %s; %s", what, prev, d, detail)
		}
		encode := func(p agentx.Pdu, want []byte, wok bool, dbg bool) {
			fn := encPlain
			if dbg {
				fn = encDbg
			}
			got, ok := fn.f(p)
			if ok != wok {
				fail(fn.name, fmt.Sprintf("ok=%v, want %v", ok, wok), show(p))
			}
			if ok && !bytes.Equal(got, want) {
				fail(fn.name, firstDiff(want, got), show(p))
			}
			c.Event(fmt.Sprintf("encode-ok-%v", ok))
			if ok {
				fillBytes(got, 0xEE)
			}
			note(fmt.Sprintf("encode type %d ok %v dbg %v", p.Tag, ok, dbg))
		}
		decode := func(m Msg, dbg, reuse bool) {
			h, hv, _ := ref.DecodeHeader(m.H)
			var p agentx.Pdu
			var ok bool
			if dbg {
				p, ok = agentx.DecodePduHeaderDbg(m.H, nop{})
			} else {
				p, ok = agentx.DecodePduHeader(m.H)
			}
			if ok != (hv == ref.Accept) {
				fail("header decoding", fmt.Sprintf("ok=%v, want %v", ok, hv), m.String())
			}
			if !ok {
				c.Event("header-refused")
				note("bad header")
				return
			}
			if d := ref.DiffHeader(h, p); d != "" {
				fail("header decoding", d, m.String())
			}
			if p.Context != "" || len(p.Ranges) > 0 || len(p.Varbinds) > 0 || p.Params != nil {
				fail("header decoding", "payload fields are set: "+show(p), m.String())
			}
			want, v, _ := ref.DecodePayload(h, m.P)
			q := &p
			if reuse {
				dirty.Tag, dirty.Flags, dirty.SessionId, dirty.TransactionId, dirty.PacketId, dirty.PayloadSize = p.Tag, p.Flags, p.SessionId, p.TransactionId, p.PacketId, p.PayloadSize
				q = &dirty
				if len(dirty.Varbinds)+len(dirty.Ranges) > 0 {
					c.Event("dirty-decodes")
				}
			}
			if dbg {
				ok = agentx.DecodePduPayloadDbg(q, m.P, nop{})
			} else {
				ok = agentx.DecodePduPayload(q, m.P)
			}
			if v == ref.Unspecified {
				return
			}
			if ok != (v == ref.Accept) {
				fail("payload decoding", fmt.Sprintf("ok=%v, want %v (reused PDU %v)", ok, v, reuse), m.String())
			}
			if ok {
				got := *q
				if reuse {
					got = carried(got)
				}
				if d := ref.Diff(want, got); d != "" {
					fail("payload decoding", d+fmt.Sprintf(" (reused PDU %v)", reuse), m.String())
				}
			}
			c.Event(fmt.Sprintf("decode-ok-%v", ok))
			if !reuse && r.IntN(2) == 0 { // the receiver may do with its copy what it likes
				scribbleAll(&p)
				c.Event("results-overwritten")
			}
			note(fmt.Sprintf("decode type %d flags %x ok %v dbg %v reuse %v", p.Tag, byte(p.Flags), ok, dbg, reuse))
		}
		for s := 0; s < steps; s++ {
			dbg := r.IntN(6) == 0
			switch r.IntN(8) {
			case 0:
				g := gen.Pick(r, gs)
				encode(g.pdu, g.data, true, dbg)
			case 1:
				g := gen.Pick(r, gs)
				decode(split(g.data), dbg, false)
			case 2:
				g := gen.Pick(r, gs)
				decode(split(g.data), dbg, true)
			case 3:
				p := gen.Pdu(r, gen.SmallOpt)
				b, _ := ref.Encode(p)
				encode(p, b, true, dbg)
				decode(split(b), dbg, r.IntN(2) == 0)
			case 4: // refused encode
				p := gen.Break(r, gen.Pdu(r, gen.SmallOpt))
				b, ok := ref.Encode(p)
				encode(p, b, ok, dbg)
			case 5: // malformed decode
				g := gen.Pick(r, gs)
				decode(split(gen.Mutate(r, g.data)), dbg, r.IntN(2) == 0)
			case 6: // truncated in the lists, decoded into the reused PDU
				p := gen.PduOf(r, gen.Pick(r, []agentx.PduTag{5, 6, 7, 8, 12, 14, 15, 18}), gen.SmallOpt)
				b, _ := ref.Encode(p)
				if len(b) > 28 {
					b = append([]byte(nil), b[:20+4*r.IntN((len(b)-20)/4)]...)
					ref.SetLength(b, len(b)-20)
				}
				decode(split(b), dbg, true)
			default: // the caller's PDU already holds things
				dirty.Context = gen.Str(r, 10)
				dirty.Ranges = gen.Ranges(r, r.IntN(4))
				dirty.Varbinds = gen.Varbinds(r, r.IntN(4), gen.SmallOpt)
				dirty.Params = gen.Params(r, gen.Tag(r), gen.SmallOpt)
				if r.IntN(2) == 0 {
					dirty.Ranges = append(make([]agentx.SearchRange, 0, 50), dirty.Ranges...)
					dirty.Varbinds = append(make([]asn.Varbind, 0, 50), dirty.Varbinds...)
				}
				g := gen.Pick(r, gs)
				decode(split(g.data), dbg, true)
			}
		}
		for _, g := range gs {
			encode(g.pdu, g.data, true, false)
			decode(split(g.data), false, false)
			decode(split(g.data), true, true)
		}
	}
	run.Serial("serial", run.N(150, 3000), func(c *mon.Case) { sequence(c, 400) })
	run.Cases("parallel", run.N(1500, 40000), func(c *mon.Case) { sequence(c, 150) })
	// every ordered pair of message types, with lists of several lengths
	run.Cases("pairs", 18*18*6, func(c *mon.Case) {
		a, b := agentx.PduTag(1+c.Index%18), agentx.PduTag(1+c.Index/18%18)
		p, q := gen.PduOf(c.R, a, gen.SmallOpt), gen.PduOf(c.R, b, gen.SmallOpt)
		if c.Index/324%2 == 0 {
			q.Ranges, q.Varbinds = nil, nil
		}
		bp, _ := ref.Encode(p)
		bq, _ := ref.Encode(q)
		var v agentx.Pdu
		for k, m := range []Msg{split(bp), split(bq), split(bp)} {
			h, ok := agentx.DecodePduHeader(m.H)
			if !ok {
				c.Fail("header refused: %s", m)
			}
			v.Tag, v.Flags, v.SessionId, v.TransactionId, v.PacketId, v.PayloadSize = h.Tag, h.Flags, h.SessionId, h.TransactionId, h.PacketId, h.PayloadSize
			if c.Index%3 == 0 {
				ok = agentx.DecodePduPayloadDbg(&v, m.P, nop{})
			} else {
				ok = agentx.DecodePduPayload(&v, m.P)
			}
			want, _, _ := refDecode(m)
			if !ok {
				c.Fail("payload refused at step %d: %s", k, m)
			}
			if d := ref.Diff(want, carried(v)); d != "" {
				c.Fail("decoding type %d then type %d into one PDU, step %d: %s; %s", a, b, k, d, m)
			}
			c.Event("dirty-decodes")
		}
		c.Sig(a, b, bp, bq)
		c.Sample(func() string { return fmt.Sprintf("%s then %s", split(bp), split(bq)) })
	})
	// one message after another that a summary of the contents cannot tell apart
	run.Serial("look-alikes", run.N(12000, 300000), func(c *mon.Case) {
		r := c.R
		tag := gen.Pick(r, []agentx.PduTag{8, 12, 18, 18, 8, gen.Tag(r)})
		p := gen.PduOf(r, tag, gen.SmallOpt)
		s := gen.Str(r, 200)
		if len(p.Varbinds) > 0 {
			if r.IntN(2) == 0 { // no other varbinds before this one
				p.Varbinds = p.Varbinds[:1]
			}
			i := r.IntN(len(p.Varbinds))
			p.Varbinds[i] = asn.Varbind{Oid: gen.OID(r), Tag: gen.Pick(r, []asn.Tag{code.TagOctetString, code.TagOctetString, code.TagOpaque}), Value: s}
			if p.Varbinds[i].Tag == code.TagOpaque {
				p.Varbinds[i].Value = []byte(s)
			}
		}
		b, ok := ref.Encode(p)
		if !ok {
			panic("look-alike")
		}
		same := func(x []byte, y ...byte) bool { return bytes.Equal(x, y) }
		at := bytes.LastIndex(b, []byte(s))
		msgs := [][]byte{b}
		for k := 0; k < 4; k++ {
			n := append([]byte(nil), msgs[r.IntN(len(msgs))]...)
			switch part := r.IntN(6); {
			case part == 0: // the ids of the header
				copy(n[4:16], gen.LookAlike(r, n[4:16]))
			case part == 1 && len(n) > 20: // anything
				copy(n[20:], gen.LookAlike(r, n[20:]))
			case at >= 20 && len(s) > 1:
				copy(n[at:], gen.LookAlike(r, n[at:at+len(s)]))
			}
			msgs = append(msgs, n)
			if !same(n, b...) {
				c.Event("look-alikes")
			}
		}
		for k := 0; k < 10; k++ {
			m := split(append([]byte(nil), msgs[min(k, r.IntN(len(msgs)))]...))
			h, hv, _ := ref.DecodeHeader(m.H)
			q, ok := agentx.DecodePduHeader(m.H)
			if hv != ref.Accept || !ok {
				c.Fail("header refused: %s", m)
			}
			if d := ref.DiffHeader(h, q); d != "" {
				c.Fail("header decoding after a similar message: %s; %s", d, m)
			}
			want, v, _ := ref.DecodePayload(h, m.P)
			if v == ref.Unspecified {
				continue
			}
			if k%4 == 3 {
				ok = agentx.DecodePduPayloadDbg(&q, m.P, nop{})
			} else {
				ok = agentx.DecodePduPayload(&q, m.P)
			}
			if ok != (v == ref.Accept) {
				c.Fail("decoding after a similar message: ok=%v, want %v; %s", ok, v, m)
			}
			if !ok {
				c.Event("refused-look-alikes")
				continue
			}
			if d := ref.Diff(want, q); d != "" {
				c.Fail("decoding after a similar message: %s; %s", d, m)
			}
			if longestOID(q) > ref.MaxOID {
				continue
			}
			canon, _ := ref.Encode(want)
			fn := encPlain
			if k%4 == 2 {
				fn = encDbg
			}
			got, ok := fn.f(q)
			if !ok || !bytes.Equal(got, canon) {
				c.Fail("%s after a similar PDU: ok=%v, %s; %s", fn.name, ok, firstDiff(canon, got), show(q))
			}
			c.Sig("look-alike", m.H, m.P)
		}
	})
	run.Need("look-alikes", 10000)
	// one PDU whose memory is changed in place between the calls, and one
	// receive buffer that holds one message after the other
	run.Cases("in-place", run.N(4000, 80000), func(c *mon.Case) {
		r := c.R
		p := gen.Pdu(r, gen.SmallOpt)
		if r.IntN(3) > 0 {
			p = gen.PduOf(r, gen.Pick(r, []agentx.PduTag{1, 3, 4, 5, 7, 8, 12, 18}), gen.SmallOpt)
		}
		if ref.HasVarbinds[p.Tag] && r.IntN(2) == 0 {
			p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: gen.OIDn(r, 3+r.IntN(12)), Tag: code.TagObjectId, Value: gen.OIDn(r, 2+r.IntN(14))},
				asn.Varbind{Oid: gen.OIDn(r, 5), Tag: code.TagOpaque, Value: gen.Bytes(r, 1+r.IntN(30))})
		}
		var hbuf [20]byte
		pbuf := make([]byte, 0, 4096)
		for k := 0; k < 10; k++ {
			want, wok := ref.Encode(p)
			e := encPlain
			if r.IntN(8) == 0 {
				e = encDbg
			}
			got, ok := e.f(p)
			if ok != wok || ok && !bytes.Equal(got, want) {
				c.Fail("%s after changing the PDU in place (step %d): ok=%v, want %v; %s; %s", e.name, k, ok, wok, firstDiff(want, got), show(p))
			}
			c.Event("in-place-encodes")
			if ok {
				copy(hbuf[:], got)
				pbuf = append(pbuf[:0], got[20:]...)
				norm := ref.Normal(p, len(got)-20)
				var q agentx.Pdu
				var hok, pok bool
				if r.IntN(8) == 0 {
					if q, hok = agentx.DecodePduHeaderDbg(hbuf[:], nop{}); hok {
						pok = agentx.DecodePduPayloadDbg(&q, pbuf, nop{})
					}
				} else if q, hok = agentx.DecodePduHeader(hbuf[:]); hok {
					pok = agentx.DecodePduPayload(&q, pbuf)
				}
				if !hok || !pok {
					c.Fail("message %d in the same receive buffer is refused: header %v payload %v; %s", k, hok, pok, show(p))
				}
				if d := ref.Diff(norm, q); d != "" {
					c.Fail("message %d in the same receive buffer: %s; %s", k, d, show(p))
				}
				c.Event("in-place-decodes")
			}
			// change one thing, mostly in memory that stays where it is
			cs := cells(&p)
			switch x := r.IntN(10); {
			case x < 6 && len(cs) > 0:
				m := gen.Pick(r, cs)
				if m.u != nil && len(*m.u) > 0 {
					(*m.u)[gen.Pick(r, []int{0, len(*m.u) - 1, r.IntN(len(*m.u))})] ^= 1 << r.IntN(32)
				} else if m.b != nil && len(*m.b) > 0 {
					(*m.b)[r.IntN(len(*m.b))] ^= 1 << r.IntN(8)
				}
			case x < 7:
				p.SessionId ^= 1 << r.IntN(32)
			case x < 8:
				p.TransactionId ^= 1 << r.IntN(32)
			case x < 9:
				p.PacketId ^= 1 << r.IntN(32)
			default:
				p.Flags ^= code.FlagNetworkByteOrder
			}
			c.Sig(p.Tag, k, want)
		}
	})
	// plain repetition: a thousand times the same
	run.Cases("repeat", run.N(100, 1000), func(c *mon.Case) {
		p := gen.Pdu(c.R, gen.SmallOpt)
		want, _ := ref.Encode(p)
		norm := ref.Normal(p, len(want)-20)
		for k := 0; k < 300; k++ {
			b, ok := agentx.EncodePdu(p)
			if !ok || !bytes.Equal(b, want) {
				c.Fail("encoding number %d: ok=%v %s; %s", k, ok, firstDiff(want, b), show(p))
			}
			q, h, pok := libDecode(split(b))
			if !h || !pok {
				c.Fail("decoding number %d refused; %s", k, show(p))
			}
			if d := ref.Diff(norm, q); d != "" {
				c.Fail("decoding number %d: %s; %s", k, d, show(p))
			}
			fillBytes(b, byte(k))
			scribbleAll(&q)
		}
		c.EventN("repeats", 300)
	})
	// the same small message, more often than any counter of 20 bits can tell
	run.Cases("marathon", 8, func(c *mon.Case) {
		p := gen.PduOf(c.R, gen.Pick(c.R, []agentx.PduTag{2, 9, 10, 11, 13, 18, 5}), gen.SmallOpt)
		if p.Tag == 5 {
			p.Context, p.Ranges = "", []agentx.SearchRange{{StartOid: []uint32{1, 3, 6, 1, 2, 1}}}
		} else {
			p.Context, p.Varbinds = "x", nil
		}
		p.Flags &= code.FlagNetworkByteOrder
		want, ok := ref.Encode(p)
		if !ok {
			c.Error("bad marathon PDU")
			return
		}
		norm := ref.Normal(p, len(want)-20)
		m := split(append([]byte(nil), want...))
		n := run.N(400000, 6000000)
		for k := 0; k < n; k++ {
			q, h := agentx.DecodePduHeader(m.H)
			pok := h && agentx.DecodePduPayload(&q, m.P)
			if !pok || q.SessionId != norm.SessionId || q.TransactionId != norm.TransactionId || q.PacketId != norm.PacketId || q.Tag != norm.Tag || q.Flags != norm.Flags || len(q.Ranges) != len(norm.Ranges) || q.Params != norm.Params {
				c.Fail("decoding number %d: ok=%v %v %s; %s", k, h, pok, ref.Diff(norm, q), m)
			}
			if k%2 == 0 {
				if b, ok := agentx.EncodePdu(p); !ok || !bytes.Equal(b, want) {
					c.Fail("encoding number %d: ok=%v %s; %s", k, ok, firstDiff(want, b), show(p))
				}
			}
		}
		c.EventN("repeats", n)
	})
	// failure after failure, then success
	run.Serial("streaks", run.N(24, 300), func(c *mon.Case) {
		r := c.R
		kind := c.Index % 4
		p := gen.Pdu(r, gen.SmallOpt)
		good, _ := ref.Encode(p)
		norm := ref.Normal(p, len(good)-20)
		bad := append([]byte(nil), good...)
		var refused agentx.Pdu
		switch kind {
		case 0:
			bad[gen.Pick(r, []int{0, 1, 3})] = 0xEE
		case 1: // the payload ends in the middle or goes on
			if len(bad) > 20 && r.IntN(2) == 0 {
				bad = bad[:len(bad)-4]
			} else {
				bad = append(bad, 0xFF, 0xFF, 0xFF, 0xFF)
			}
			ref.SetLength(bad, len(bad)-20)
		case 2: // an announced length that does not come
			ref.SetLength(bad, len(bad)-20+4)
		default:
			refused = gen.Break(r, p)
		}
		for _, n := range []int{1, 2, 3, 10, 33, 100, 129, 257, 1001, 4097, gen.Pick(r, []int{1025, 10001, 65537})} {
			for k := 0; k < n; k++ {
				if kind == 3 {
					agentx.EncodePdu(refused)
				} else {
					libDecode(split(bad))
				}
			}
			b, ok := agentx.EncodePdu(p)
			if !ok || !bytes.Equal(b, good) {
				c.Fail("encoding after %d failures (kind %d): ok=%v %s; %s", n, kind, ok, firstDiff(good, b), show(p))
			}
			for k := 0; k < n; k++ {
				if kind == 3 {
					agentx.EncodePdu(refused)
				} else {
					libDecode(split(bad))
				}
			}
			q, h, pok := libDecode(split(append([]byte(nil), good...)))
			if !h || !pok {
				c.Fail("a message is refused after %d failures (kind %d): header %v payload %v; %s", n, kind, h, pok, show(p))
			}
			if d := ref.Diff(norm, q); d != "" {
				c.Fail("decoding after %d failures (kind %d): %s; %s", n, kind, d, show(p))
			}
			c.EventN("failures-in-a-row", 2*n)
		}
	})
	run.Need("failures-in-a-row", 20000)
	run.Need("encode-ok-true", 20000)
	run.Need("encode-ok-false", 2000)
	run.Need("decode-ok-true", 20000)
	run.Need("decode-ok-false", 2000)
	run.Need("dirty-decodes", 5000)
	run.Need("in-place-encodes", 10000)
	run.Need("in-place-decodes", 10000)
}

// ---- C11: concurrent use of the codec ----

type sharedItem struct {
	pdu  agentx.Pdu
	data []byte // reference encoding, nil if refused
	msg  Msg    // input of the decoders
	want agentx.Pdu
	verd ref.Verdict
	text [3]string // printed alone, filled in later
}

func sharedItems(r gen.R, n int) []*sharedItem {
	var out []*sharedItem
	for i := 0; i < n; i++ {
		it := &sharedItem{}
		p := gen.PduOf(r, agentx.PduTag(1+(i+r.IntN(18))%18), gen.SmallOpt)
		if i%5 == 4 {
			p = gen.Break(r, p)
		}
		it.pdu = roomyPdu(r, p)
		if b, ok := ref.Encode(p); ok {
			it.data = b
		}
		b, _ := ref.Encode(gen.Pdu(r, gen.SmallOpt))
		if i%4 == 3 {
			b = gen.Mutate(r, b)
		}
		it.msg = split(b)
		it.want, it.verd, _ = refDecode(it.msg)
		out = append(out, it)
	}
	return out
}

// op runs one codec call on a shared item and compares the result.
func (it *sharedItem) op(k int) string {
	switch k {
	case 0, 1:
		fn := encPlain
		if k == 1 {
			fn = encDbg
		}
		b, ok := fn.f(it.pdu)
		if ok != (it.data != nil) {
			return fmt.Sprintf("%s ok=%v for %s", fn.name, ok, show(it.pdu))
		}
		if ok && !bytes.Equal(b, it.data) {
			return fmt.Sprintf("%s: %s for %s", fn.name, firstDiff(it.data, b), show(it.pdu))
		}
	case 2, 3:
		fn := decPlain
		if k == 3 {
			fn = decDbg
		}
		p, h, ok := fn.f(it.msg)
		if it.verd == ref.Unspecified {
			return ""
		}
		if (h && ok) != (it.verd == ref.Accept) {
			return fmt.Sprintf("%s ok=%v,%v, want %v for %s", fn.name, h, ok, it.verd, it.msg)
		}
		if h && ok {
			if d := ref.Diff(it.want, p); d != "" {
				return fmt.Sprintf("%s: %s for %s", fn.name, d, it.msg)
			}
		}
	default:
		d := k % 3
		if s := it.pdu.String(d); it.text[d] != "" && s != it.text[d] {
			return fmt.Sprintf("printing gives %q, alone %q", trunc(s, 500), trunc(it.text[d], 500))
		}
	}
	return ""
}

// hotOps make one small library call and what it must return by definition.
var hotOps = []struct {
	name string
	make func(r gen.R) (func() string, string)
}{
	{"printing a varbind", func(r gen.R) (func() string, string) {
		vb := gen.Varbind(r, gen.SmallOpt)
		return vb.String, refVarbind(vb)
	}},
	{"printing an address", func(r gen.R) (func() string, string) {
		a := [4]byte{gen.B(r), gen.B(r), gen.B(r), gen.B(r)}
		return func() string { return ipa.String(a) }, refIP(a)
	}},
	{"printing into a builder", func(r gen.R) (func() string, string) {
		t := gen.Pick(r, ref.VarbindTags)
		v := gen.Value(r, t, gen.SmallOpt)
		return func() string { var sb strings.Builder; t.Fprint(&sb, v); return sb.String() }, refValue(t, v)
	}},
	{"printing a range", func(r gen.R) (func() string, string) {
		x := gen.Range(r)
		return x.String, refRange(x)
	}},
	{"printing flags", func(r gen.R) (func() string, string) {
		f := agentx.Flags(r.Uint32())
		return f.String, refFlags(f)
	}},
	{"printing codes", func(r gen.R) (func() string, string) {
		a, b, e := agentx.PduTag(r.IntN(30)), asn.Tag(r.Uint32()), pduerror.Error(gen.U16(r))
		return func() string { return a.String() + b.String() + e.String() }, refPduTag(a) + refTag(b) + refError(e)
	}},
	{"OID text", func(r gen.R) (func() string, string) {
		id := gen.OIDn(r, 1+r.IntN(20))
		return func() string { return oid.String(id) }, refText(id)
	}},
	{"OID parsing", func(r gen.R) (func() string, string) {
		id := gen.OIDn(r, 1+r.IntN(20))
		s := refText(id)
		return func() string { return key(oid.Parse(s)) }, key(id)
	}},
	{"hex dumping", func(r gen.R) (func() string, string) {
		d := gen.Bytes(r, 1+r.IntN(40))
		return func() string { return hex.Dump(" ", d) }, strings.Join(dumpLinesWith(" ", d, 0, len(d)), "\n")
	}},
	{"hex diffing", func(r gen.R) (func() string, string) {
		a, b := gen.Bytes(r, 10+r.IntN(9)), gen.Bytes(r, 1+r.IntN(9))
		return func() string {
			x, y, err := readDiff(hex.DumpDiff(a, b))
			return fmt.Sprintf("%x %x %v", x, y, err)
		}, fmt.Sprintf("%x %x %v", a, b, error(nil))
	}},
	{"value checks", func(r gen.R) (func() string, string) {
		t := gen.Pick(r, ref.VarbindTags)
		v := gen.Value(r, t, gen.SmallOpt)
		return func() string { return fmt.Sprint(t.IsValueTag(), t.IsValidValue(v), t.IsValidValue(3.5)) }, fmt.Sprint(true, true, ref.Valueless(t))
	}},
	{"encoding one varbind", func(r gen.R) (func() string, string) {
		p := base(code.TagNotify, r.IntN(2) == 0)
		p.Varbinds = []asn.Varbind{gen.Varbind(r, gen.SmallOpt)}
		b, _ := ref.Encode(p)
		f := encPlain.f
		if r.IntN(4) == 0 {
			f = encDbg.f
		}
		return func() string { d, _ := f(p); return string(d) }, string(b)
	}},
	{"encoding a small PDU", func(r gen.R) (func() string, string) {
		p := gen.PduOf(r, gen.Pick(r, []agentx.PduTag{1, 2, 3, 4, 5, 7, 13, 16, 17}), gen.Opt{MaxList: 2, MaxStr: 12})
		b, _ := ref.Encode(p)
		f := encPlain.f
		if r.IntN(4) == 0 {
			f = encDbg.f
		}
		return func() string { d, _ := f(p); return string(d) }, string(b)
	}},
	{"decoding one varbind", func(r gen.R) (func() string, string) {
		p := base(code.TagNotify, r.IntN(2) == 0)
		p.Varbinds = []asn.Varbind{gen.Varbind(r, gen.SmallOpt)}
		b, _ := ref.Encode(p)
		f := decPlain.f
		if r.IntN(4) == 0 {
			f = decDbg.f
		}
		return func() string {
			q, h, ok := f(split(b))
			return fmt.Sprint(h, ok) + ref.Diff(ref.Normal(p, len(b)-20), q)
		}, "true true"
	}},
	{"decoding a small PDU", func(r gen.R) (func() string, string) {
		p := gen.PduOf(r, gen.Pick(r, []agentx.PduTag{1, 2, 3, 4, 5, 7, 13, 16, 17}), gen.Opt{MaxList: 2, MaxStr: 12})
		b, _ := ref.Encode(p)
		f := decPlain.f
		if r.IntN(4) == 0 {
			f = decDbg.f
		}
		return func() string {
			q, h, ok := f(split(b))
			return fmt.Sprint(h, ok) + ref.Diff(ref.Normal(p, len(b)-20), q)
		}, "true true"
	}},
	{"refusing a damaged message", func(r gen.R) (func() string, string) {
		for {
			b, _ := ref.Encode(gen.Pdu(r, gen.SmallOpt))
			b = bytes.Clone(b)
			if damage(r, b) {
				f := decPlain.f
				if r.IntN(3) == 0 {
					f = decDbg.f
				}
				return func() string { _, h, ok := f(split(b)); return fmt.Sprint(h, ok) }, "true false"
			}
		}
	}},
	{"printing a PDU", func(r gen.R) (func() string, string) {
		p := gen.Pdu(r, gen.SmallOpt)
		if r.IntN(2) == 0 { // PDUs with the same header and other contents
			p.SessionId, p.TransactionId, p.PacketId, p.PayloadSize = 5, 6, 7, 8
			if r.IntN(2) == 0 {
				p.Tag, p.Flags, p.Context, p.Params = code.TagResponse, 0, "", agentx.ResponseParams{SysUpTime: 1}
				p.Ranges, p.Varbinds = nil, gen.Varbinds(r, 2, gen.SmallOpt)
			}
		}
		depth := r.IntN(3)
		want := refPdu(p, depth)
		return func() string {
			if s := p.String(depth); !sameText(want, s) {
				return s
			}
			return want
		}, want
	}},
}

func c11(run *mon.Run) {
	run.Rule("Goroutines encode, decode and print shared PDUs and byte slices (some refused or malformed) with plain and debug functions at the same time; each result is compared with the reference computed alone. Race, yield-instrumented and plain builds; fresh child processes whose very first library calls are concurrent. Non-trivial: a call made while another goroutine was inside a call; distinct by (item, operation, build run).")
	runtime.GOMAXPROCS(max(8, runtime.NumCPU()))
	div := 1
	switch {
	case strings.Contains(run.Variant, "yield"):
		div = 10
	case run.Variant != "plain":
		div = 4
	}
	storm := func(c *mon.Case, g, n, items int, sameOp bool) {
		its := sharedItems(c.R, items)
		for _, it := range its {
			for d := range it.text {
				it.text[d] = it.pdu.String(d)
			}
		}
		snaps := make([]*snapshot, len(its))
		for i, it := range its {
			snaps[i] = snap(&it.pdu)
		}
		type step struct{ item, op int }
		plans := make([][]step, g)
		for i := range plans {
			for j := 0; j < n; j++ {
				plans[i] = append(plans[i], step{c.R.IntN(len(its)), c.R.IntN(6)})
			}
			if sameOp && i > 0 {
				copy(plans[i], plans[0])
			}
		}
		bad := make([]string, g)
		overl := make([]int, g)
		var inside, ready atomic.Int32
		var wg sync.WaitGroup
		track := run.Variant == "plain" // the counter would order the calls for the race detector
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				ready.Add(1)
				for ready.Load() < int32(g) {
					runtime.Gosched()
				}
				for _, s := range plans[i] {
					if track && inside.Add(1) > 1 {
						overl[i]++
					}
					d := its[s.item].op(s.op)
					if track {
						inside.Add(-1)
					}
					if d != "" {
						bad[i] = d
						return
					}
				}
			}(i)
		}
		wg.Wait()
		for i := range bad {
			if bad[i] != "" {
				c.Fail("with %d goroutines: %s", g, bad[i])
			}
			c.EventN("calls-overlapping-others", overl[i])
			c.EventN("calls", n)
			for _, s := range plans[i] {
				c.Sig(c.Section, c.Index, s.item, s.op)
			}
		}
		for i, it := range its {
			if d := snaps[i].diff(&it.pdu); d != "" {
				c.Fail("a shared PDU changed: %s", d)
			}
		}
		c.Event("storms")
		c.Sample(func() string {
			return fmt.Sprintf("%d goroutines x %d calls on %d shared PDUs and messages", g, n, items)
		})
	}
	old := run.Workers
	run.Workers = 2
	run.Cases("mixed", run.N(1500, 40000)/div, func(c *mon.Case) { storm(c, 2+c.R.IntN(7), 80, 12, false) })
	run.Cases("one-item", run.N(1500, 40000)/div, func(c *mon.Case) { storm(c, 2+c.R.IntN(7), 60, 1, false) })
	run.Cases("lockstep", run.N(1000, 30000)/div, func(c *mon.Case) { storm(c, 2+c.R.IntN(7), 60, 6, true) })
	run.Workers = old
	// hot: many goroutines in the same small function, each with its own data
	run.Workers = 2
	run.Cases("hot", (run.N(len(hotOps)*24, len(hotOps)*400)+div-1)/div, func(c *mon.Case) {
		mk := hotOps[c.Index%len(hotOps)]
		g := gen.Pick(c.R, []int{3, 8, 16, 24, 40})
		n := 4000 / g
		if run.Variant != "plain" {
			n = 800 / g
		}
		ops := make([][4]func() string, g)
		want := make([][4]string, g)
		for i := range ops {
			for k := range ops[i] {
				ops[i][k], want[i][k] = mk.make(c.R)
			}
		}
		bad := make([]string, g)
		var ready atomic.Int32
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				ready.Add(1)
				for ready.Load() < int32(g) {
					runtime.Gosched()
				}
				for k := 0; k < n; k++ {
					if got := ops[i][k%4](); got != want[i][k%4] {
						bad[i] = fmt.Sprintf("call %d gives %q, want %q", k, trunc(got, 300), trunc(want[i][k%4], 300))
						return
					}
				}
			}(i)
		}
		wg.Wait()
		for i := range bad {
			if bad[i] != "" {
				c.Fail("%s on %d goroutines at once, each with data of its own: %s", mk.name, g, bad[i])
			}
		}
		c.EventN("calls", g*n)
		c.Event("hot-" + mk.name)
		c.Sig("hot", mk.name, g, c.Index)
	})
	run.Workers = old
	// messages of up to half a megabyte, results kept for a while
	run.Workers = 1
	run.Cases("large", max(run.N(24, 300)/div, 4), func(c *mon.Case) {
		g := 2 + c.R.IntN(5)
		top := []int{9000, 70000, 140000, 500000}[c.Index%4]
		type item struct {
			pdu, norm agentx.Pdu
			wire      []byte
		}
		its := make([][3]item, g)
		for i := range its {
			for k := range its[i] {
				size := top - 4*c.R.IntN(top/8)
				x := &its[i][k]
				if c.R.IntN(3) > 0 || (div == 10 && top > 10000) {
					x.pdu = placeStr(c.R.IntN(5), c.R.IntN(2) == 0, string(gen.Bytes(c.R, size)))
				} else {
					x.pdu = base(code.TagResponse, c.R.IntN(2) == 0)
					x.pdu.Varbinds = make([]asn.Varbind, size/24)
					for j := range x.pdu.Varbinds {
						x.pdu.Varbinds[j] = asn.Varbind{Oid: []uint32{1, 300, c.R.Uint32()}, Tag: code.TagInteger32, Value: int32(j)}
					}
				}
				x.wire, _ = ref.Encode(x.pdu)
				x.norm = ref.Normal(x.pdu, len(x.wire)-20)
			}
		}
		bad := make([]string, g)
		var ready atomic.Int32
		var wg sync.WaitGroup
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				ready.Add(1)
				for ready.Load() < int32(g) {
					runtime.Gosched()
				}
				for round := 0; round < 3; round++ {
					var out [3][]byte
					var dec [3]agentx.Pdu
					var ok [3]bool
					for k, x := range its[i] {
						out[k], ok[k] = agentx.EncodePdu(x.pdu)
					}
					for k, x := range its[i] {
						if !ok[k] || !bytes.Equal(out[k], x.wire) {
							bad[i] = fmt.Sprintf("EncodePdu ok=%v: %s", ok[k], firstDiff(x.wire, out[k]))
							return
						}
						m := split(x.wire)
						dec[k], ok[k] = agentx.DecodePduHeader(m.H)
						ok[k] = ok[k] && agentx.DecodePduPayload(&dec[k], m.P)
					}
					for k, x := range its[i] {
						if !ok[k] {
							bad[i] = "message refused"
							return
						}
						if d := ref.Diff(x.norm, dec[k]); d != "" {
							bad[i] = "DecodePduPayload: " + trunc(d, 300)
							return
						}
					}
				}
			}(i)
		}
		wg.Wait()
		for i := range bad {
			if bad[i] != "" {
				c.Fail("with %d goroutines and messages of about %d bytes: %s", g, top, bad[i])
			}
		}
		c.EventN("calls", g*18)
		c.EventN("large", g*18)
		c.Sig("large", c.Index, g)
	})
	run.Workers = old
	// one PDU value, decoded lists of one message read and printed by all
	run.Cases("shared-decoded", run.N(1000, 20000)/div, func(c *mon.Case) {
		b, _ := ref.Encode(gen.Pdu(c.R, gen.SmallOpt))
		p, h, ok := libDecode(split(b))
		if !h || !ok {
			c.Fail("message refused: %s", split(b))
		}
		want := p.String(0)
		var wg sync.WaitGroup
		bad := make([]string, 6)
		for i := range bad {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				for k := 0; k < 10; k++ {
					if i%2 == 0 {
						if s := p.String(0); s != want {
							bad[i] = "printed differently"
						}
					} else if d, ok := agentx.EncodePdu(p); !ok || !bytes.Equal(d, b) {
						bad[i] = "encoded differently"
					}
				}
			}(i)
		}
		wg.Wait()
		for _, s := range bad {
			if s != "" {
				c.Fail("a decoded PDU shared by 6 goroutines is %s: %s", s, split(b))
			}
		}
		c.EventN("calls", 60)
	})
	// fresh processes
	exe, err := os.Executable()
	if err != nil {
		run.AddError(err.Error())
		return
	}
	dir, err := os.MkdirTemp("", "c11cold")
	if err != nil {
		run.AddError(err.Error())
		return
	}
	defer os.RemoveAll(dir)
	run.Workers = 3
	run.Cases("cold-start", run.N(40, 400), func(c *mon.Case) {
		out := filepath.Join(dir, fmt.Sprintf("r%d.json", c.Index))
		cmd := exec.Command(exe, "-prop", "C11cold", "-tier", run.Tier, "-variant", run.Variant, "-seed", fmt.Sprint(run.Seed*1000+uint64(c.Index)), "-index", fmt.Sprint(c.Index), "-section", "cold", "-out", out)
		text, err := cmd.CombinedOutput()
		if err != nil {
			if ee, ok := err.(*exec.ExitError); ok && (ee.ExitCode() == 1 || strings.Contains(string(text), "mygosnmp")) {
				res, _ := os.ReadFile(out)
				c.Fail("first calls of a fresh process: %s\n%s", trunc(string(text), 2000), trunc(string(res), 3000))
			}
			if ee, ok := err.(*exec.ExitError); ok && ee.ExitCode() == 66 {
				return // the race detector reported; its log is read by the driver
			}
			c.Error("child: %v %s", err, trunc(string(text), 1000))
		}
		c.Event("cold-starts")
		c.Sig("cold", c.Index)
	})
	run.Workers = old
	run.Need("calls", 10000)
	run.Need("cold-starts", 20)
	if run.Variant == "plain" {
		run.Need("calls-overlapping-others", 1)
	}
}

// c11cold runs in a fresh process: the first calls into the library happen at
// the same time on all goroutines.
func c11cold(run *mon.Run) {
	run.Rule("first calls")
	run.Serial("cold", run.OnlyIndex+1, func(c *mon.Case) {
		its := sharedItems(c.R, 24)
		g := 8
		var ready atomic.Int32
		var wg sync.WaitGroup
		bad := make([]string, g)
		first := c.Index % 10
		for i := 0; i < g; i++ {
			wg.Add(1)
			go func(i int) {
				defer wg.Done()
				ready.Add(1)
				for ready.Load() < int32(g) {
				}
				switch first { // everybody starts with the same kind of call
				case 0, 1, 2, 3, 4:
					for k := range its {
						if d := its[(k+i*3)%len(its)].op(first); d != "" {
							bad[i] = d
							return
						}
					}
				case 5:
					for t := 0; t < 256; t++ {
						_ = asn.Tag(t).String() + agentx.PduTag(t).String() + agentx.Flags(t).String() + agentx.CloseReason(t).String() + pduerror.Error(t+100).String()
						asn.Tag(t).IsValidValue(int32(1))
						asn.Tag(t).IsValueTag()
						var sb strings.Builder
						asn.Tag(t).Fprint(&sb, "x")
					}
				case 6:
					for k := uint32(0); k < 50; k++ {
						id := []uint32{1, 3, k, 1 << 31}
						if s := oid.String(id); oid.Compare(oid.Parse(s), id) != 0 {
							bad[i] = "oid text " + s
						}
						oid.Cat(id, k)
						oid.Compare(oid.Name["sysDescr"], id)
					}
				case 7:
					data := []byte{1, 2, 3, 4, 5, 6, 7, 8, 9}
					if s := hex.Dump("  ", data); s != strings.Join(dumpLinesWith("  ", data, 0, len(data)), "\n") {
						bad[i] = "dump " + s
					}
					hex.DumpDiff(data, data[:5])
					_ = ipa.String([4]byte{1, 2, 3, 4})
				case 8:
					t := oid.NewTree()
					t.AddNode([]uint32{1, 2, 3})
					if t.GetNextNode(nil, nil, false) == nil {
						bad[i] = "tree"
					}
				case 9:
					its[0].op(5)
				}
				for k := range its {
					for op := 0; op < 6; op++ {
						if d := its[(k+i)%len(its)].op((op + i) % 6); d != "" {
							bad[i] = d
							return
						}
					}
				}
			}(i)
		}
		wg.Wait()
		for _, b := range bad {
			if b != "" {
				c.Fail("first concurrent calls (kind %d): %s", first, b)
			}
		}
	})
}
