package props

import (
	"bytes"
	"fmt"
	"math"
	"verif/harness/code"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	reg("C01", c01)
	reg("C02", c02)
	reg("C03", c03)
	reg("C04", c04)
	reg("C06", c06)
	reg("C12", c12)
	reg("C24", c24)
}

func trunc(s string, n int) string {
	if len(s) > n {
		return s[:n] + fmt.Sprintf("...(%d)", len(s))
	}
	return s
}

func show(p agentx.Pdu) string {
	return fmt.Sprintf("Pdu{Tag:%d Flags:%#x Session:%d Trans:%d Packet:%d Size:%d Context(%d):%s Params:%s Ranges(%d):%s Varbinds(%d):%s}",
		p.Tag, byte(p.Flags), p.SessionId, p.TransactionId, p.PacketId, p.PayloadSize, len(p.Context), trunc(fmt.Sprintf("%q", trunc(p.Context, 100)), 300), trunc(fmt.Sprintf("%T%v", p.Params, p.Params), 400),
		len(p.Ranges), trunc(fmt.Sprint(p.Ranges), 600), len(p.Varbinds), showVbs(p.Varbinds))
}

func showVbs(vbs []asn.Varbind) string {
	s := ""
	for _, vb := range vbs {
		s += trunc(fmt.Sprintf("{%v tag=%d %T %v}", vb.Oid, byte(vb.Tag), vb.Value, vb.Value), 300)
		if len(s) > 900 {
			return trunc(s, 900)
		}
	}
	return s
}

func firstDiff(a, b []byte) string {
	n := min(len(a), len(b))
	for i := 0; i < n; i++ {
		if a[i] != b[i] {
			lo, hi := max(0, i-8), min(n, i+16)
			return fmt.Sprintf("lengths %d/%d, first difference at %d: want ..%x.. got ..%x..", len(a), len(b), i, a[lo:hi], b[lo:hi])
		}
	}
	return fmt.Sprintf("lengths %d/%d, equal up to the shorter", len(a), len(b))
}

type encFn struct {
	name string
	f    func(agentx.Pdu) ([]byte, bool)
}

var encPlain = encFn{"EncodePdu", agentx.EncodePdu}
var encDbg = encFn{"EncodePduDbg", func(p agentx.Pdu) ([]byte, bool) { return agentx.EncodePduDbg(p, nop{}) }}

type decFn struct {
	name string
	f    func(Msg) (agentx.Pdu, bool, bool)
}

var decPlain = decFn{"DecodePdu", libDecode}
var decDbg = decFn{"DecodePduDbg", func(m Msg) (agentx.Pdu, bool, bool) { return libDecodeDbg(m, nop{}) }}

// pduFamilies runs f over the full sweeps with the plain function and over
// thinned sweeps with the debug function.
func pduFamilies(run *mon.Run, f func(c *mon.Case, p agentx.Pdu, dbg bool)) {
	for _, fam := range Families(run, run.N(60000, 1500000), 1) {
		fam := fam
		run.Cases(fam.Name, fam.N, func(c *mon.Case) { f(c, fam.Make(c.Index, c.R), false) })
	}
	for _, fam := range Families(run, run.N(6000, 200000), run.N(16, 2)) {
		fam := fam
		run.Cases("dbg-"+fam.Name, fam.N, func(c *mon.Case) { f(c, fam.Make(c.Index, c.R), true) })
	}
}

func wireFamilies(run *mon.Run, f func(c *mon.Case, m Msg, dbg bool)) {
	for _, fam := range WireFamilies(run, run.N(150000, 4000000), 1) {
		fam := fam
		run.Cases(fam.Name, fam.N, func(c *mon.Case) { f(c, fam.Make(c.Index, c.R), false) })
	}
	for _, fam := range WireFamilies(run, run.N(10000, 300000), run.N(60, 4)) {
		fam := fam
		run.Cases("dbg-"+fam.Name, fam.N, func(c *mon.Case) { f(c, fam.Make(c.Index, c.R), true) })
	}
}

func c01(run *mon.Run) {
	run.Rule("Valid and arbitrary PDUs (sweeps over types, flags, string/OID/list lengths, prefixes, field values; random; PDUs with defects) are encoded; every success is split at byte 20 and decoded. Non-trivial: the encoder reported success, so the decoded message was compared field by field; distinct by wire bytes.")
	check := func(c *mon.Case, p agentx.Pdu, dbg bool) {
		e, d := encPlain, decPlain
		if dbg {
			e, d = encDbg, decDbg
		}
		data, ok := e.f(p)
		if !ok {
			c.Event("encode-refused")
			return
		}
		c.Event("encode-ok")
		if len(data) < 20 {
			c.Fail("%s returned ok with %d bytes for %s", e.name, len(data), show(p))
		}
		m := split(data)
		got, hok, pok := d.f(m)
		if !hok {
			c.Fail("header of an encoded PDU was rejected: %s; %s", show(p), m)
		}
		if !pok {
			c.Fail("payload of an encoded PDU was rejected: %s; %s", show(p), m)
		}
		if diff := ref.Diff(ref.Normal(p, len(m.P)), got); diff != "" {
			c.Fail("round trip differs: %s; sent %s; %s", diff, show(p), m)
		}
		c.Event(fmt.Sprintf("roundtrip-type-%d", p.Tag))
		c.EventN("ranges-compared", len(got.Ranges))
		c.EventN("varbinds-compared", len(got.Varbinds))
		c.Sig(sigOf(p, data)...)
		c.Sample(func() string { return show(p) })
	}
	pduFamilies(run, check)
	// whatever the encoder accepts must come back, also for odd PDUs
	run.Cases("arbitrary", run.N(60000, 1000000), func(c *mon.Case) { check(c, gen.AnyPdu(c.R, gen.SmallOpt), c.Index%8 == 0) })
	run.Cases("all-types-flags", 256*256, func(c *mon.Case) {
		p := base(agentx.PduTag(c.Index), false)
		p.Flags = agentx.Flags(c.Index >> 8)
		p.Context = "c"
		check(c, p, c.Index%16 == 0)
	})
	run.Cases("getbulk-counters", 65536/4, func(c *mon.Case) {
		p := base(code.TagGetBulk, c.Index%2 == 0)
		p.Params = agentx.GetBulkParams{NonRepeaters: int16(c.Index * 4), MaxRepeatitions: int16(c.R.IntN(65536))}
		check(c, p, false)
	})
	// the include field is a byte of the range, not just a bit
	run.Cases("include-values", 256*12, func(c *mon.Case) {
		p := base(agentx.PduTag(5+c.Index/256%3), c.Index/768%2 == 0)
		v := byte(c.Index)
		p.Ranges = []agentx.SearchRange{{StartOid: gen.OIDn(c.R, 1+c.R.IntN(8)), EndOid: gen.OID(c.R), StartIncluded: v}, gen.Range(c.R), {StartOid: gen.OIDn(c.R, 1+c.R.IntN(8)), StartIncluded: gen.B(c.R)}, {StartIncluded: v, EndOid: gen.OID(c.R)}}
		check(c, p, c.Index/1536 == 1)
	})
	hugeFamily(run, "huge", func(c *mon.Case, p agentx.Pdu) { check(c, p, false) })
	run.Serial("vast", 2, func(c *mon.Case) { check(c, vastPdu(c), false) })
	run.Need("encode-ok", 100000)
	run.Need("varbinds-compared", 10000)
	run.Need("ranges-compared", 10000)
	run.Need("encode-refused", 100)
}

func c02(run *mon.Run) {
	run.Rule("Valid PDUs (sweeps and random as in families.go) are encoded by the library and by an independent RFC 2741 reference encoder; the bytes must be identical. Non-trivial: the PDU is valid and both byte strings were compared; distinct by wire bytes.")
	compare := func(c *mon.Case, p agentx.Pdu, dbg bool) {
		e := encPlain
		if dbg {
			e = encDbg
		}
		want, ok := ref.Encode(p)
		if !ok {
			c.Error("generator produced an invalid PDU: %s", show(p))
		}
		got, ok := e.f(p)
		if !ok {
			c.Fail("%s refused a valid PDU: %s", e.name, show(p))
		}
		if !bytes.Equal(want, got) {
			c.Fail("%s: wire bytes differ (%s) for %s", e.name, firstDiff(want, got), show(p))
		}
		c.Event(fmt.Sprintf("compared-type-%d", p.Tag))
		c.Event("compared")
		c.EventN("bytes-compared", len(got))
		c.Sig(sigOf(p, got)...)
		c.Sample(func() string { return show(p) + " -> " + hx(got) })
	}
	pduFamilies(run, compare)
	run.Cases("include-values", 256*6, func(c *mon.Case) {
		p := base(agentx.PduTag(5+c.Index/256%3), c.Index/768 == 0)
		p.Ranges = []agentx.SearchRange{{StartOid: gen.OIDn(c.R, 1+c.R.IntN(8)), EndOid: gen.OID(c.R), StartIncluded: byte(c.Index)}, gen.Range(c.R), {StartOid: gen.OIDn(c.R, 1+c.R.IntN(8)), StartIncluded: gen.B(c.R)}}
		want, _ := ref.Encode(p)
		got, ok := agentx.EncodePdu(p)
		if !ok || !bytes.Equal(want, got) {
			c.Fail("include value %d: ok=%v, %s", byte(c.Index), ok, firstDiff(want, got))
		}
		c.Event("compared")
		c.Sig(got)
	})
	// messages of several megabytes, lists of up to a million elements
	hugeFamily(run, "huge", func(c *mon.Case, p agentx.Pdu) { compare(c, p, false) })
	run.Need("compared", 100000)
	for t := 1; t <= 18; t++ {
		run.Need(fmt.Sprintf("compared-type-%d", t), 50)
	}
}

func c03(run *mon.Run) {
	run.Rule("Well-formed messages (canonical and alternative legal forms of generated PDUs, and those damaged messages that are still well-formed) are decoded; accept/values must match an independent RFC 2741 reference decoder. Non-trivial: the reference accepts the message; distinct by wire bytes.")
	check := func(c *mon.Case, m Msg, dbg bool) {
		d := decPlain
		if dbg {
			d = decDbg
		}
		want, v, _ := refDecode(m)
		if v != ref.Accept {
			c.Event("not-applicable-" + v.String())
			return
		}
		got, hok, pok := d.f(m)
		if !hok {
			c.Fail("%s: well-formed header rejected: %s", d.name, m)
		}
		if !pok {
			c.Fail("%s: well-formed payload rejected: %s (expected %s)", d.name, m, show(want))
		}
		if diff := ref.Diff(want, got); diff != "" {
			c.Fail("%s: decoded values differ: %s; %s", d.name, diff, m)
		}
		c.Event("accepted")
		c.Event(fmt.Sprintf("accepted-type-%d", want.Tag))
		for _, vb := range got.Varbinds {
			c.Event(fmt.Sprintf("varbind-type-%d", vb.Tag))
		}
		if len(m.P) > 4096 {
			c.Sig(m.H, len(m.P), m.P[:2048])
		} else {
			c.Sig(m.H, m.P)
		}
		c.Sample(m.String)
	}
	pduFamilies(run, func(c *mon.Case, p agentx.Pdu, dbg bool) {
		var plain func() bool
		if c.R.IntN(2) == 0 {
			plain = func() bool { return c.R.IntN(2) == 0 }
		}
		b, ok := ref.EncodeAlt(p, plain)
		if !ok {
			c.Error("generator produced an invalid PDU: %s", show(p))
		}
		check(c, split(b), dbg)
	})
	wireFamilies(run, check)
	hugeFamily(run, "huge", func(c *mon.Case, p agentx.Pdu) {
		b, _ := ref.Encode(p)
		check(c, split(b), false)
	})
	run.Serial("vast", 2, func(c *mon.Case) {
		b, _ := ref.Encode(vastPdu(c))
		check(c, split(b), false)
	})
	// headers of messages of any length that the field can hold, of the types
	// that have messages of that length (two gigabytes are not allocated here)
	long := []agentx.PduTag{1, 5, 6, 7, 8, 12, 14, 15, 16, 18}
	run.Cases("length", 31*len(long), func(c *mon.Case) {
		tag, bit := long[c.Index%len(long)], c.Index/len(long)
		for d := -16; d <= 16; d += 4 {
			for k := 0; k < 4; k++ {
				n := int64(1)<<bit + int64(d)
				if k > 1 {
					n = int64(c.R.Uint32() >> (31 - bit))
				}
				if n &^= 3; n < 200 || n > 1<<31-4 {
					continue
				}
				h := make([]byte, 20)
				h[0], h[1], h[2] = 1, byte(tag), byte(k&1)<<4
				for j := 4; j < 16; j++ {
					h[j] = byte(c.R.Uint32())
				}
				ref.SetLength(h, int(n))
				want, v, why := ref.DecodeHeader(h)
				if v != ref.Accept {
					c.Error("header %x: %s", h, why)
				}
				got, ok := agentx.DecodePduHeader(h)
				gotDbg, okDbg := agentx.DecodePduHeaderDbg(h, nop{})
				if !ok || !okDbg {
					c.Fail("the header %x of a message with %d bytes of payload is rejected (%v, debug %v)", h, n, ok, okDbg)
				}
				if diff := ref.Diff(want, got) + ref.Diff(want, gotDbg); diff != "" {
					c.Fail("the header %x is read differently: %s", h, diff)
				}
				c.Event("lengths")
				c.Sig(h)
			}
		}
	})
	run.Need("lengths", 5000)
	run.Need("accepted", 100000)
	for t := 1; t <= 18; t++ {
		run.Need(fmt.Sprintf("accepted-type-%d", t), 50)
	}
	for _, t := range ref.VarbindTags {
		run.Need(fmt.Sprintf("varbind-type-%d", t), 50)
	}
}

func c04(run *mon.Run) {
	run.Rule("Damaged messages (every single-byte replacement, truncation, extension and boundary word of a corpus covering all types; every type x flags pair; all 65536 varbind types; all OID headers; claimed lengths; grammar-aware noise; several random edits) are decoded. Non-trivial: the reference decoder rejects the message, so the library has to as well; distinct by bytes.")
	check := func(c *mon.Case, m Msg, dbg bool) {
		d := decPlain
		if dbg {
			d = decDbg
		}
		_, v, why := refDecode(m)
		if v != ref.Reject {
			c.Event("not-applicable-" + v.String())
			return
		}
		_, hok, pok := d.f(m)
		_, hv, _ := ref.DecodeHeader(m.H)
		if hv == ref.Reject && hok {
			c.Fail("%s: malformed header accepted (%s): %s", d.name, why, m)
		}
		if hok && pok {
			c.Fail("%s: malformed message accepted (%s): %s", d.name, why, m)
		}
		c.Event("rejected")
		if hv == ref.Reject {
			c.Event("rejected-" + why)
		} else {
			c.Event("rejected-payload")
		}
		if len(m.P) < 4096 {
			c.Sig(m.H, m.P)
		}
		c.Sample(func() string { return why + ": " + m.String() })
	}
	wireFamilies(run, check)
	// large messages with one defect near the end
	run.Cases("late-defect", run.N(3000, 60000), func(c *mon.Case) {
		p := gen.Pdu(c.R, gen.Opt{MaxList: 200, MaxStr: 3000})
		b, _ := ref.Encode(p)
		b = append([]byte(nil), b...)
		switch c.R.IntN(4) {
		case 0:
			b = b[:len(b)-min(len(b)-20, 4*(1+c.R.IntN(3)))]
		case 1:
			b = append(b, make([]byte, 4*(1+c.R.IntN(2)))...)
		case 2:
			if len(b) > 20 {
				b[max(20, len(b)-1-c.R.IntN(16))] ^= gen.Pick(c.R, []byte{1, 128, 255})
			}
		case 3:
			b = gen.Mutate(c.R, b)
		}
		if len(b) >= 20 {
			ref.SetLength(b, len(b)-20)
		}
		check(c, split(b), c.Index%16 == 0)
	})
	// the same in messages of megabytes and lists of up to a million elements
	hugeFamily(run, "huge-late-defect", func(c *mon.Case, p agentx.Pdu) {
		b, _ := ref.Encode(p)
		b = append(make([]byte, 0, len(b)+8), b...)
		switch n := c.R.IntN(5); n {
		case 0, 1:
			b = b[:len(b)-4*(1+n)]
		case 2:
			b = append(b, 0, 0, 0, 0)
		case 3:
			b = append(b, 1, 2, 3, 4, 5, 6, 7, 8)
		default:
			b = b[:len(b)-1-c.R.IntN(3)]
		}
		ref.SetLength(b, len(b)-20)
		check(c, split(b), false)
	})
	// an IP address of every length, strings of every negative length class
	run.Cases("ip-lengths", 300*2, func(c *mon.Case) {
		n := c.Index / 2
		p := base(code.TagResponse, c.Index%2 == 0)
		p.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3}, Tag: code.TagOctetString, Value: string(gen.Bytes(c.R, n))}}
		b, _ := ref.Encode(p)
		ref.Order(p.Flags).PutUint16(b[28:], uint16(code.TagIpAddress))
		check(c, split(b), false)
	})
	run.Need("rejected", 100000)
	run.Need("rejected-payload", 50000)
	for _, w := range []string{"version", "type", "flags", "reserved", "negative length", "unaligned length", "size"} {
		run.Need("rejected-header: "+w, 20)
	}
}

func c06(run *mon.Run) {
	run.Rule("PDUs with one or more defects at every place (unknown types, nil/foreign/pointer/mismatched params, every disallowed flag set, every varbind tag with a zoo of Go values, over-long OIDs of many lengths at every OID place, negative GetBulk counters, oversize payloads) are given to both encoders. Non-trivial: the reference says not representable; distinct by kind of defect and place.")
	check := func(c *mon.Case, p agentx.Pdu, kind string) {
		if _, ok := ref.Encode(p); ok {
			c.Event("representable")
			return
		}
		for _, e := range []encFn{encPlain, encDbg} {
			if data, ok := e.f(p); ok {
				c.Fail("%s accepted an unrepresentable PDU (%s): %s -> %s", e.name, kind, show(p), hx(data))
			}
			c.Event("refused")
		}
		c.Event("refused-" + kind)
		c.Sig(kind, show(p))
		c.Sample(func() string { return kind + ": " + show(p) })
	}
	params := func(r gen.R) []agentx.PayloadParams {
		l := []agentx.PayloadParams{nil, (*agentx.OpenParams)(nil), (*agentx.NoParams)(nil), &agentx.NoParams{}, &agentx.OpenParams{}, &agentx.CloseParams{},
			&agentx.RegisterParams{}, &agentx.UnregisterParams{}, &agentx.GetBulkParams{}, &agentx.AddAgentCapsParams{}, &agentx.RemoveAgentCapsParams{}, &agentx.ResponseParams{},
			foreignParams{}, wrappedOpen{}}
		for t := agentx.PduTag(1); t <= 18; t++ {
			l = append(l, gen.Params(r, t, gen.SmallOpt))
		}
		return l
	}
	run.Cases("types", 256*4, func(c *mon.Case) {
		tag := agentx.PduTag(c.Index / 4)
		for k, pr := range params(c.R) {
			p := base(tag, c.Index%2 == 0)
			p.Params = pr
			if c.Index%4 >= 2 {
				p.Varbinds = gen.Varbinds(c.R, 1, gen.SmallOpt)
				p.Ranges = gen.Ranges(c.R, 1)
			}
			_ = k
			check(c, p, "type/params")
		}
	})
	run.Cases("flags", 18*256, func(c *mon.Case) {
		p := base(agentx.PduTag(1+c.Index/256), false)
		p.Flags = agentx.Flags(c.Index)
		check(c, p, "flags")
		p = gen.PduOf(c.R, p.Tag, gen.SmallOpt)
		p.Flags = agentx.Flags(c.Index)
		check(c, p, "flags")
	})
	vtags := []agentx.PduTag{8, 12, 14, 15, 18}
	run.Cases("varbind-values", 256*5, func(c *mon.Case) {
		for _, v := range gen.Zoo(c.R) {
			p := base(vtags[c.Index%5], c.R.IntN(2) == 0)
			p.Varbinds = gen.Varbinds(c.R, c.R.IntN(3), gen.SmallOpt)
			bad := asn.Varbind{Oid: gen.OIDn(c.R, c.R.IntN(8)), Tag: asn.Tag(c.Index / 5), Value: v}
			at := c.R.IntN(len(p.Varbinds) + 1)
			p.Varbinds = append(p.Varbinds[:at:at], append([]asn.Varbind{bad}, p.Varbinds[at:]...)...)
			check(c, p, "varbind")
		}
	})
	hugeFamily(run, "huge-late", func(c *mon.Case, p agentx.Pdu) {
		switch {
		case len(p.Varbinds) > 1:
			at := len(p.Varbinds) - 1 - c.R.IntN(2)
			if c.R.IntN(2) == 0 {
				p.Varbinds[at].Oid = gen.OIDn(c.R, 129)
			} else {
				p.Varbinds[at].Tag = 3
			}
		case len(p.Ranges) > 0:
			p.Ranges[len(p.Ranges)-1].EndOid = gen.OIDn(c.R, 129+c.R.IntN(200))
		default:
			p.Flags |= 0x80
		}
		if _, ok := ref.Encode(p); ok {
			c.Error("no defect in %s", show(p))
		}
		if b, ok := agentx.EncodePdu(p); ok {
			c.Fail("EncodePdu accepted a huge PDU with a defect near its end (%d bytes): %s", len(b), show(p))
		}
	})
	// the defect sits deep in a long list
	run.Cases("late-varbind", run.N(400, 4000), func(c *mon.Case) {
		p := base(vtags[c.Index%5], c.R.IntN(2) == 0)
		n := []int{1, 2, 7, 8, 9, 31, 32, 33, 63, 64, 65, 100, 127, 128, 255, 256, 257, 300}[c.R.IntN(18)]
		p.Varbinds = gen.Varbinds(c.R, n, gen.Opt{MaxStr: 8})
		at := gen.Pick(c.R, []int{0, n - 1, c.R.IntN(n)})
		switch c.R.IntN(3) {
		case 0:
			p.Varbinds[at] = asn.Varbind{Tag: asn.Tag(gen.B(c.R)), Value: gen.Pick(c.R, gen.Zoo(c.R))}
		case 1:
			p.Varbinds[at].Oid = gen.BadOID(c.R)
		default:
			p.Varbinds[at] = asn.Varbind{Tag: code.TagObjectId, Value: gen.BadOID(c.R)}
		}
		check(c, p, "late-varbind")
	})
	lens := []int{}
	for n := 129; n <= 700; n++ {
		lens = append(lens, n)
	}
	lens = append(lens, 1000, 1023, 1024, 1025, 65535, 65536, 65537, 65540, 65541, 65664)
	for _, v := range gen.TheDict.Ints {
		if v > 128 && v < 70000 {
			lens = append(lens, int(v))
		}
	}
	lens = dedup(lens)
	run.Cases("long-oids", len(lens)*nOidPlaces, func(c *mon.Case) {
		id := make([]uint32, lens[c.Index/nOidPlaces])
		for i := range id {
			id[i] = gen.U32(c.R)
		}
		if c.R.IntN(2) == 0 {
			copy(id, []uint32{1, 3, 6, 1, uint32(1 + c.R.IntN(255))})
		}
		if len(id) > 2000 && c.Index%4 > 0 { // the debug encoder is slow on those
			if data, ok := agentx.EncodePdu(placeOid(c.Index%nOidPlaces, c.R.IntN(2) == 0, id)); ok {
				c.Fail("EncodePdu accepted an OID of %d sub-ids: %s", len(id), hx(data))
			}
			c.Event("refused")
			return
		}
		check(c, placeOid(c.Index%nOidPlaces, c.R.IntN(2) == 0, id), "long-oid")
	})
	run.Cases("getbulk", 65536/2, func(c *mon.Case) {
		p := base(code.TagGetBulk, c.Index%2 == 0)
		v := int16(c.Index*2 + c.R.IntN(2))
		o := int16(gen.U16(c.R))
		if c.R.IntN(2) == 0 {
			p.Params = agentx.GetBulkParams{NonRepeaters: v, MaxRepeatitions: o & 0x7fff}
		} else {
			p.Params = agentx.GetBulkParams{NonRepeaters: o & 0x7fff, MaxRepeatitions: v}
		}
		if c.R.IntN(4) == 0 {
			p.Params = agentx.GetBulkParams{NonRepeaters: v, MaxRepeatitions: o}
		}
		check(c, p, "getbulk")
	})
	run.Cases("mixed", run.N(15000, 600000), func(c *mon.Case) { check(c, gen.AnyPdu(c.R, gen.SmallOpt), "mixed") })
	// payloads beyond 2^31-1 bytes, made of many references to one big string
	type big struct {
		n   int
		len int
	}
	over := []big{
		{129, 1 << 24}, {256, 1 << 24}, {257, 1 << 24}, {300, 1 << 24}, {400, 1 << 24}, // up to and beyond 2^32 (wraps around)
		{128, 1<<24 - 8}, {256, 1<<24 - 16 + 4},
	}
	blob := string(make([]byte, 1<<24))
	run.Serial("oversize", len(over)*2, func(c *mon.Case) {
		b := over[c.Index/2]
		p := base(code.TagResponse, true)
		total := int64(8)
		for i := 0; i < b.n; i++ {
			vb := asn.Varbind{Oid: nil, Tag: code.TagOctetString, Value: blob[:b.len]}
			if c.Index%2 == 1 && i%2 == 1 {
				vb = asn.Varbind{Tag: code.TagOpaque, Value: bytesOf(blob[:b.len])}
			}
			total += 4 + 4 + 4 + int64(b.len+3)/4*4
			p.Varbinds = append(p.Varbinds, vb)
		}
		if total <= math.MaxInt32 {
			c.Event("representable")
			return
		}
		if data, ok := agentx.EncodePdu(p); ok {
			c.Fail("EncodePdu accepted a payload of %d bytes (%d strings of %d), header %s", total, b.n, b.len, hx(data[:20]))
		}
		c.Event("refused")
		c.Event("refused-oversize")
		c.Sig("oversize", total)
	})
	run.Need("refused", 50000)
	run.Need("refused-oversize", 4)
	for _, k := range []string{"type/params", "flags", "varbind", "late-varbind", "long-oid", "getbulk", "mixed"} {
		run.Need("refused-"+k, 100)
	}
}

type foreignParams struct{ agentx.NoParams }
type wrappedOpen struct{ agentx.OpenParams }

var blobBytes []byte

func bytesOf(s string) []byte {
	if len(blobBytes) < len(s) {
		blobBytes = make([]byte, len(s))
	}
	return blobBytes[:len(s)]
}

func c12(run *mon.Run) {
	run.Rule("A valid PDU and a copy whose wire-excluded fields (payload size, context without flag, ranges/varbinds of other types, upper bound without range sub-id, values of value-less varbinds) hold arbitrary, also ill-formed, contents are encoded; both must succeed with identical bytes. Decoding must not fill excluded lists. Non-trivial: at least one excluded field differs; distinct by wire bytes and clutter.")
	check := func(c *mon.Case, p agentx.Pdu, dbg bool) {
		e, d := encPlain, decPlain
		if dbg {
			e, d = encDbg, decDbg
		}
		q := gen.Clutter(c.R, p)
		a, ok1 := e.f(p)
		if !ok1 {
			c.Fail("%s refused the uncluttered PDU %s", e.name, show(p))
		}
		b, ok2 := e.f(q)
		if !ok2 {
			c.Fail("%s refused because of irrelevant fields: %s", e.name, show(q))
		}
		if !bytes.Equal(a, b) {
			c.Fail("%s: irrelevant fields changed the bytes (%s): %s", e.name, firstDiff(a, b), show(q))
		}
		if q.Context != p.Context {
			c.Event("clutter-context")
		}
		if len(q.Ranges) != len(p.Ranges) {
			c.Event("clutter-ranges")
		}
		if len(q.Varbinds) != len(p.Varbinds) {
			c.Event("clutter-varbinds")
		}
		m := split(b)
		got, hok, pok := d.f(m)
		if hok && pok {
			if !ref.HasRanges[p.Tag] && len(got.Ranges) != 0 {
				c.Fail("decoding type %d filled %d ranges: %s", p.Tag, len(got.Ranges), m)
			}
			if !ref.HasVarbinds[p.Tag] && len(got.Varbinds) != 0 {
				c.Fail("decoding type %d filled %d varbinds: %s", p.Tag, len(got.Varbinds), m)
			}
			if p.Flags&code.FlagNonDefaultContext == 0 && got.Context != "" {
				c.Fail("decoding filled a context that is not on the wire: %s", m)
			}
			c.Event("decoded")
		}
		c.Event("compared")
		if len(a) < 4096 {
			c.Sig(a, q.PayloadSize, len(q.Ranges), len(q.Varbinds))
		}
		c.Sample(func() string { return show(q) })
	}
	pduFamilies(run, check)
	// one excluded field at a time, swept over hostile contents
	bad := func(r gen.R, k int, p agentx.Pdu) (agentx.Pdu, string) {
		switch k {
		case 0:
			p.PayloadSize = int32(gen.U32(r))
			return p, "size"
		case 1:
			if p.Flags&code.FlagNonDefaultContext == 0 {
				p.Context = gen.Str(r, 300)
			}
			return p, "context"
		case 2:
			if !ref.HasRanges[p.Tag] {
				p.Ranges = []agentx.SearchRange{{StartOid: gen.OIDn(r, gen.Pick(r, []int{0, 5, 129, 256, 300})), EndOid: gen.OID(r), StartIncluded: gen.B(r)}}
			}
			return p, "ranges"
		case 3:
			if !ref.HasVarbinds[p.Tag] {
				p.Varbinds = []asn.Varbind{{Oid: gen.OIDn(r, gen.Pick(r, []int{0, 5, 129, 256, 300})), Tag: asn.Tag(gen.B(r)), Value: gen.Pick(r, gen.Zoo(r))}}
			}
			return p, "varbinds"
		default:
			p.Varbinds = append([]asn.Varbind(nil), p.Varbinds...)
			for i := range p.Varbinds {
				if ref.Valueless(p.Varbinds[i].Tag) {
					p.Varbinds[i].Value = gen.Pick(r, gen.Zoo(r))
				}
			}
			return p, "values"
		}
	}
	run.Cases("one-field", run.N(18*5*200, 18*5*5000), func(c *mon.Case) {
		p := gen.PduOf(c.R, agentx.PduTag(1+c.Index%18), gen.SmallOpt)
		if ref.HasVarbinds[p.Tag] {
			for _, t := range []asn.Tag{5, 128, 129, 130} {
				if c.R.IntN(2) == 0 {
					p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: gen.OID(c.R), Tag: t})
				}
			}
		}
		q, kind := bad(c.R, c.Index/18%5, p)
		e := encPlain
		if c.Index%4 == 0 {
			e = encDbg
		}
		a, ok1 := e.f(p)
		b, ok2 := e.f(q)
		if !ok1 || !ok2 || !bytes.Equal(a, b) {
			c.Fail("%s: irrelevant %s changed the result (ok %v/%v, %s): %s", e.name, kind, ok1, ok2, firstDiff(a, b), show(q))
		}
		c.Event("one-field-" + kind)
	})
	run.Cases("upper-bound", 2*2*len(words()), func(c *mon.Case) {
		v := words()[c.Index/4]
		p := base(code.TagRegister, c.Index%2 == 0)
		p.Params = agentx.RegisterParams{Timeout: 1, Priority: 2, Subtree: []uint32{1, 3}, UpperBound: v}
		z := p
		z.Params = agentx.RegisterParams{Timeout: 1, Priority: 2, Subtree: []uint32{1, 3}}
		if c.Index%4 >= 2 {
			p.Tag, z.Tag = code.TagUnregister, code.TagUnregister
			p.Params = agentx.UnregisterParams{Priority: 2, Subtree: []uint32{1, 3}, UpperBound: v}
			z.Params = agentx.UnregisterParams{Priority: 2, Subtree: []uint32{1, 3}}
		}
		a, ok1 := agentx.EncodePdu(p)
		b, ok2 := agentx.EncodePdu(z)
		if !ok1 || !ok2 || !bytes.Equal(a, b) {
			c.Fail("upper bound %d without a range sub-id changed the result (ok %v/%v, %s)", v, ok1, ok2, firstDiff(b, a))
		}
		c.Event("upper-bound")
	})
	run.Need("compared", 50000)
	run.Need("decoded", 50000)
	for _, k := range []string{"context", "ranges", "varbinds"} {
		run.Need("clutter-"+k, 1000)
	}
}

func c24(run *mon.Run) {
	run.Rule("All 256 value types x a zoo of Go values (right, wrong, named, pointer, nil): IsValueTag, IsValidValue and the encoders' verdict are compared with each other and with the 13 RFC types; varbinds decoded from random messages are checked for validity. Non-trivial: one (type, Go type) pair or one decoded varbind; distinct by that pair.")
	run.Cases("tags", 256, func(c *mon.Case) {
		tag := asn.Tag(c.Index)
		want := ref.IsVarbindTag(tag)
		if got := tag.IsValueTag(); got != want {
			c.Fail("Tag(%d).IsValueTag() = %v, but the type %s be sent in a varbind", c.Index, got, map[bool]string{true: "can", false: "cannot"}[want])
		}
		// can it be sent at all?
		sent := false
		for _, v := range gen.Zoo(c.R) {
			p := base(code.TagNotify, true)
			p.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3}, Tag: tag, Value: v}}
			if _, ok := agentx.EncodePdu(p); ok {
				sent = true
			}
		}
		if sent != want {
			c.Fail("varbinds of type %d can be encoded: %v, IsValueTag: %v", c.Index, sent, want)
		}
		c.Event("tags")
	})
	run.Cases("pairs", 256*run.N(24, 400), func(c *mon.Case) {
		tag := asn.Tag(c.Index % 256)
		vals := gen.Zoo(c.R)
		for _, t := range ref.VarbindTags {
			vals = append(vals, gen.Value(c.R, t, gen.SmallOpt))
		}
		// big but encodable values are as valid as small ones
		vals = append(vals, gen.OIDn(c.R, 128))
		if c.R.IntN(8) == 0 {
			vals = append(vals, string(make([]byte, c.R.IntN(70000))), make([]byte, c.R.IntN(70000)))
		}
		for _, v := range vals {
			p := base(gen.Pick(c.R, []agentx.PduTag{8, 12, 14, 15, 18}), c.R.IntN(2) == 0)
			p.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3, 6, 1, 4, 1}, Tag: tag, Value: v}}
			e := encPlain
			if c.R.IntN(8) == 0 {
				e = encDbg
			}
			_, ok := e.f(p)
			valid := tag.IsValidValue(v)
			if ok != valid {
				c.Fail("type %d value %T %v: IsValidValue=%v but %s ok=%v", byte(tag), v, v, valid, e.name, ok)
			}
			_, want := ref.Encode(p)
			if valid != want {
				c.Fail("type %d value %T %v: IsValidValue=%v, representable=%v", byte(tag), v, v, valid, want)
			}
			if valid {
				c.Event("valid-pairs")
			} else {
				c.Event("invalid-pairs")
			}
			c.Sig(byte(tag), fmt.Sprintf("%T", v))
		}
	})
	// every length class up to tens of megabytes is as valid as a short one
	run.Cases("large", 4*23*3, func(c *mon.Case) {
		r := c.R
		n := 1<<(3+c.Index/4%23) + c.Index/92 - 1
		b := make([]byte, n)
		switch r.IntN(3) {
		case 0:
			copy(b, gen.Bytes(r, n))
		case 1:
			for i := range b {
				b[i] = 'x'
			}
		}
		tag := code.TagOpaque
		var v interface{} = b
		if c.Index%2 == 0 {
			tag, v = code.TagOctetString, string(b)
		}
		if !tag.IsValidValue(v) {
			c.Fail("a value of %d bytes is not valid for type %d", n, byte(tag))
		}
		if wrong := code.TagOctetString + code.TagOpaque - tag; wrong.IsValidValue(v) {
			c.Fail("a %T of %d bytes is valid for type %d", v, n, byte(wrong))
		}
		p := base(gen.Pick(r, []agentx.PduTag{8, 12, 14, 15, 18}), r.IntN(2) == 0)
		p.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3, 6, 1, 4, 1}, Tag: tag, Value: v}}
		if d, ok := agentx.EncodePdu(p); !ok {
			c.Fail("a value of %d bytes of type %d is valid, but refused by EncodePdu", n, byte(tag))
		} else if c.Index%4 < 2 {
			if q, h, pok := libDecode(split(d)); !h || !pok || !q.Varbinds[0].Tag.IsValidValue(q.Varbinds[0].Value) {
				c.Fail("a value of %d bytes of type %d does not decode to a valid one", n, byte(tag))
			}
		}
		c.Event("large-values")
		c.Sig("large", byte(tag), n)
	})
	run.Need("large-values", 200)
	run.Cases("decoded", run.N(40000, 800000), func(c *mon.Case) {
		p := gen.PduOf(c.R, gen.Pick(c.R, []agentx.PduTag{8, 12, 14, 15, 18}), gen.SmallOpt)
		b, _ := ref.Encode(p)
		if c.R.IntN(2) == 0 {
			b = gen.Mutate(c.R, b)
		}
		d := decPlain
		if c.Index%8 == 0 {
			d = decDbg
		}
		got, hok, pok := d.f(split(b))
		if !hok || !pok {
			c.Event("rejected")
			return
		}
		for i, vb := range got.Varbinds {
			if !vb.Tag.IsValueTag() || !vb.Tag.IsValidValue(vb.Value) {
				c.Fail("%s delivered varbind %d of type %d with value %T %v, which is not valid for its type: %x", d.name, i, byte(vb.Tag), vb.Value, vb.Value, b)
			}
			c.Event(fmt.Sprintf("decoded-type-%d", vb.Tag))
			c.Sig("decoded", byte(vb.Tag), fmt.Sprintf("%T", vb.Value))
		}
		c.Sample(func() string { return hx(b) })
	})
	// every varbind type code on the wire
	run.Cases("wire-types", 65536, func(c *mon.Case) {
		p := base(code.TagResponse, c.Index%2 == 0)
		p.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3}, Tag: code.TagOctetString, Value: "abcd"}}
		b, _ := ref.Encode(p)
		ref.Order(p.Flags).PutUint16(b[28:], uint16(c.Index))
		got, hok, pok := libDecode(split(b))
		if hok && pok {
			for _, vb := range got.Varbinds {
				if !vb.Tag.IsValueTag() || !vb.Tag.IsValidValue(vb.Value) {
					c.Fail("type code %#x decoded to tag %d with %T, not valid for its type", c.Index, byte(vb.Tag), vb.Value)
				}
			}
			c.Event("wire-accepted")
		}
	})
	run.Need("tags", 256)
	run.Need("valid-pairs", 1000)
	run.Need("invalid-pairs", 10000)
	for _, t := range ref.VarbindTags {
		run.Need(fmt.Sprintf("decoded-type-%d", t), 100)
	}
}
