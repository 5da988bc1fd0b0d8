package props

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"verif/harness/code"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/logger"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() {
	reg("C05", c05)
	reg("C07", c07)
	reg("C08", c08)
}

// hostileHeader returns an arbitrary PDU value as a caller may pass it to
// payload decoding.
func hostileHeader(r gen.R, size int) agentx.Pdu {
	p := agentx.Pdu{Tag: agentx.PduTag(gen.B(r)), Flags: agentx.Flags(gen.B(r)), PayloadSize: int32(size)}
	if r.IntN(4) > 0 {
		p.Tag = gen.Tag(r)
	}
	if r.IntN(3) == 0 {
		p.PayloadSize = int32(gen.U32(r))
	}
	if r.IntN(4) == 0 {
		p.Context = "old"
		p.Ranges = gen.Ranges(r, r.IntN(3))
		p.Varbinds = gen.Varbinds(r, r.IntN(3), gen.SmallOpt)
		p.Params = gen.Params(r, gen.Tag(r), gen.SmallOpt)
	}
	return p
}

func c05(run *mon.Run) {
	run.Rule("Hostile headers, payloads and PDU values (all wire families, headers of every size, payload decoding into arbitrary PDU values, PDUs with every kind of defect) are given to all six codec functions; an escaped panic, a call that does not end or a decode that allocates more than a fixed multiple of its input is a violation. Non-trivial: a call whose input the reference calls malformed or unrepresentable, or whose allocation was measured; distinct by input.")
	// 1. no panic, termination: every function on every family
	all := func(c *mon.Case, m Msg, dbg bool) {
		if !dbg {
			p, ok := agentx.DecodePduHeader(m.H)
			agentx.DecodePduPayload(&p, m.P) // also after a rejected header
			c.Event("decode-calls")
			if !ok {
				c.Event("bad-header")
			}
		} else {
			p, ok := agentx.DecodePduHeaderDbg(m.H, nop{})
			agentx.DecodePduPayloadDbg(&p, m.P, nop{})
			c.Event("decode-dbg-calls")
			if !ok {
				c.Event("bad-header")
			}
		}
		if len(m.P) < 2048 {
			c.Sig(m.H, m.P)
		}
	}
	wireFamilies(run, all)
	run.Cases("hostile-pdu-values", run.N(60000, 2000000), func(c *mon.Case) {
		r := c.R
		b, _ := ref.Encode(gen.Pdu(r, gen.SmallOpt))
		pay := b[20:]
		switch r.IntN(4) {
		case 0:
			pay = gen.Bytes(r, r.IntN(40))
		case 1:
			pay = nil
		}
		p := hostileHeader(r, len(pay))
		if c.Index%4 == 0 {
			agentx.DecodePduPayloadDbg(&p, pay, nop{})
		} else {
			agentx.DecodePduPayload(&p, pay)
		}
		c.Event("decode-calls")
		c.Sig(byte(p.Tag), byte(p.Flags), p.PayloadSize, pay)
	})
	run.Cases("header-noise", run.N(60000, 1000000), func(c *mon.Case) {
		var h []byte
		switch c.R.IntN(3) {
		case 0:
			h = gen.Bytes(c.R, c.R.IntN(41))
		case 1:
			h = nil
		default:
			h = gen.Bytes(c.R, 20)
		}
		agentx.DecodePduHeader(h)
		agentx.DecodePduHeaderDbg(h, nop{})
		c.Event("decode-calls")
	})
	run.Cases("encode", run.N(40000, 1000000), func(c *mon.Case) {
		p := gen.AnyPdu(c.R, gen.SmallOpt)
		_, ok := agentx.EncodePdu(p)
		if c.Index%4 == 0 {
			agentx.EncodePduDbg(p, nop{})
		}
		c.Event("encode-calls")
		if !ok {
			c.Event("encode-refused")
			c.Sig(show(p))
		}
	})
	run.Cases("encode-all-types", 256*256, func(c *mon.Case) {
		p := base(agentx.PduTag(c.Index), false)
		p.Flags = agentx.Flags(c.Index >> 8)
		if c.R.IntN(3) == 0 {
			p.Params = nil
		}
		agentx.EncodePdu(p)
		if c.Index%8 == 0 {
			agentx.EncodePduDbg(p, nop{})
		}
		c.Event("encode-calls")
	})
	run.Cases("encode-long-oids", 400*nOidPlaces, func(c *mon.Case) {
		p := placeOid(c.Index%nOidPlaces, c.Index%2 == 0, gen.OIDn(c.R, c.Index/nOidPlaces))
		agentx.EncodePdu(p)
		if c.Index%16 == 0 {
			agentx.EncodePduDbg(p, nop{})
		}
		c.Event("encode-calls")
	})
	// 2. allocation, one call at a time. The bound is far above what the
	// decoded form of the input can need (a value-less varbind of 8 bytes
	// takes 48 bytes of memory, at most a few times that while lists grow).
	old := debug.SetGCPercent(400)
	defer debug.SetGCPercent(old)
	measure := func(c *mon.Case, what string, factor, slack, size int, f func()) {
		var a, b runtime.MemStats
		runtime.ReadMemStats(&a)
		f()
		runtime.ReadMemStats(&b)
		got := b.TotalAlloc - a.TotalAlloc
		limit := uint64(factor)*uint64(size) + uint64(slack)
		if got > limit { // other runtime activity could have been counted: repeat
			least := got
			for k := 0; k < 3; k++ {
				runtime.ReadMemStats(&a)
				f()
				runtime.ReadMemStats(&b)
				least = min(least, b.TotalAlloc-a.TotalAlloc)
			}
			if least > limit {
				c.Fail("%s allocated %d bytes for %d bytes of input (limit %d)", what, least, size, limit)
			}
		}
		c.Event("allocations-measured")
	}
	mem := func(c *mon.Case, m Msg, dbg bool) {
		if dbg {
			measure(c, fmt.Sprintf("debug decoding of %s", m), 4096, 1<<20, len(m.H)+len(m.P), func() {
				p, _ := agentx.DecodePduHeaderDbg(m.H, nop{})
				agentx.DecodePduPayloadDbg(&p, m.P, nop{})
			})
			return
		}
		measure(c, fmt.Sprintf("decoding of %s", m), 256, 1<<16, len(m.H)+len(m.P), func() {
			p, _ := agentx.DecodePduHeader(m.H)
			agentx.DecodePduPayload(&p, m.P)
		})
		if len(m.P) < 2048 {
			c.Sig("mem", m.H, m.P)
		}
	}
	for _, fam := range WireFamilies(run, run.N(6000, 100000), 1) {
		fam := fam
		switch fam.Name {
		case "word-replaced", "string-claims", "size-mismatch":
			run.Serial("mem-"+fam.Name, min(fam.N, run.N(20000, 1<<30)), func(c *mon.Case) {
				i := c.Index
				if fam.N > run.N(20000, 1<<30) {
					i = c.R.IntN(fam.N)
				}
				mem(c, fam.Make(i, c.R), false)
			})
			run.Serial("mem-dbg-"+fam.Name, run.N(1500, 40000), func(c *mon.Case) { mem(c, fam.Make(c.R.IntN(fam.N), c.R), true) })
		case "mutated", "structured-noise", "oid-headers":
			run.Serial("mem-"+fam.Name, min(fam.N, run.N(4000, 100000)), func(c *mon.Case) { mem(c, fam.Make(c.R.IntN(fam.N), c.R), c.Index%8 == 0) })
		}
	}
	// headers that announce much more than is supplied, payload decoded as is
	run.Serial("mem-announced", run.N(1500, 30000), func(c *mon.Case) {
		b, _ := ref.Encode(gen.Pdu(c.R, gen.SmallOpt))
		b = append([]byte(nil), b...)
		ref.SetLength(b, int(gen.Pick(c.R, []uint32{1 << 20, 1 << 24, 1 << 28, 1 << 30, 1<<31 - 4, 1 << 18})))
		if c.R.IntN(3) == 0 {
			b = b[:20]
		}
		mem(c, split(b), c.Index%6 == 0)
	})
	// well-formed messages of growing size: memory stays proportional
	run.Serial("mem-proportional", run.N(300, 3000), func(c *mon.Case) {
		p := gen.PduOf(c.R, gen.Pick(c.R, []agentx.PduTag{5, 8, 18, 16, 1}), gen.Opt{MaxList: 2000, MaxStr: 200000})
		b, _ := ref.Encode(p)
		mem(c, split(b), c.Index%10 == 0)
	})
	// thousands of elements of one kind: what is done for one element must
	// not grow with what follows or precedes it
	run.Serial("mem-many", run.N(60, 400), func(c *mon.Case) {
		r := c.R
		p := base(gen.Pick(r, []agentx.PduTag{8, 12, 14, 15, 18}), r.IntN(2) == 0)
		n := 2000 + r.IntN(10000)
		opt := gen.Opt{MaxStr: gen.Pick(r, []int{1, 8, 40})}
		if c.Index%15 == 14 {
			p = base(gen.Pick(r, []agentx.PduTag{5, 6, 7}), r.IntN(2) == 0)
			p.Ranges = gen.Ranges(r, n)
		} else {
			t := ref.VarbindTags[c.Index%15%len(ref.VarbindTags)]
			same := asn.Varbind{Oid: gen.OIDn(r, 1+r.IntN(6)), Tag: t, Value: gen.Value(r, t, opt)}
			for i := 0; i < n; i++ {
				if c.Index/15%2 == 1 {
					p.Varbinds = append(p.Varbinds, same)
				} else {
					p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: gen.OIDn(r, 1+r.IntN(4)), Tag: t, Value: gen.Value(r, t, opt)})
				}
			}
		}
		b, ok := ref.Encode(p)
		if !ok {
			c.Error("bad PDU")
			return
		}
		m := split(append([]byte(nil), b...))
		mem(c, m, false)
		if c.Index%5 == 0 && len(m.P) < 200000 {
			mem(c, m, true)
		}
		if len(m.P) > 40 { // also when it ends in an error
			m.P[len(m.P)-4*r.IntN(8)-1] ^= 0x80
			mem(c, m, false)
		}
		c.Event("many-elements")
	})
	// messages of many megabytes made of the smallest elements, and ones
	// whose last element is damaged
	run.Serial("mem-huge", run.N(12, 48), func(c *mon.Case) {
		size := gen.Pick(c.R, []int{64 << 20, 60<<20 + 16, 33 << 20})
		p := base([]agentx.PduTag{5, 6, 18, 8, 12, 16}[c.Index%6], c.R.IntN(2) == 0)
		b, _ := ref.Encode(p)
		b = append([]byte(nil), b...)
		o := ref.Order(p.Flags)
		tail := make([]byte, size)
		if !ref.HasRanges[p.Tag] && p.Tag != 16 {
			for i := 0; i+8 <= len(tail); i += 8 {
				o.PutUint16(tail[i:], 5) // null, empty name
			}
		}
		if c.Index%12 >= 6 {
			tail[len(tail)-8], tail[len(tail)-7], tail[len(tail)-4] = 250, 250, 250
		}
		b = append(b, tail...)
		ref.SetLength(b, len(b)-20)
		mem(c, split(b), false)
		c.Event("huge-decodes")
	})
	// 3. nothing is left behind
	leakCodec(run, "leak-")
	run.Need("huge-decodes", 12)
	run.Need("many-elements", 50)
	run.Need("decode-calls", 500000)
	run.Need("decode-dbg-calls", 10000)
	run.Need("encode-refused", 2000)
	run.Need("allocations-measured", 20000)
}

// A logger that formats, one that calls back into the library, one that is
// called from another goroutine's point of view slow, and one that discards.
type reentrant struct{ n int }

func (l *reentrant) Write(msg string) {
	if l.n++; l.n%7 == 0 {
		agentx.EncodePdu(reentryPdu)
		p, _ := agentx.DecodePduHeader(reentryMsg.H)
		agentx.DecodePduPayload(&p, reentryMsg.P)
		agentx.EncodePduDbg(reentryPdu, nop{})
	}
}
func (l *reentrant) Writef(format string, args ...interface{}) { l.Write(fmt.Sprintf(format, args...)) }

var reentryPdu = agentx.Pdu{Tag: code.TagNotify, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{
	{Oid: []uint32{1, 3, 6, 1, 4, 1, 77}, Tag: code.TagOctetString, Value: "re-entered"}, {Oid: []uint32{2}, Tag: code.TagOpaque, Value: []byte{9, 9, 9}}}}
var reentryMsg = func() Msg { b, _ := ref.Encode(reentryPdu); return split(b) }()

type yielding struct{}

func (yielding) Write(string)                  { runtime.Gosched() }
func (yielding) Writef(string, ...interface{}) { runtime.Gosched() }

func someLogger(r gen.R) (logger.Log, string) {
	switch r.IntN(8) {
	case 0, 1, 2:
		return nop{}, "discarding"
	case 3, 4, 5:
		return &capture{}, "recording"
	case 6:
		return yielding{}, "yielding"
	default:
		return &reentrant{}, "re-entrant"
	}
}

func c07(run *mon.Run) {
	run.Rule("The same input (valid PDUs, PDUs with defects, all wire families, payloads decoded into arbitrary PDU values) goes to the plain and the debug function, the latter with a discarding, recording, yielding or re-entrant logger; ok must agree and, when ok, bytes or PDU. Non-trivial: every pair; distinct by input.")
	enc := func(c *mon.Case, p agentx.Pdu) {
		log, name := someLogger(c.R)
		a, ok1 := agentx.EncodePdu(p)
		b, ok2 := agentx.EncodePduDbg(p, log)
		if ok1 != ok2 {
			c.Fail("EncodePdu ok=%v, EncodePduDbg (%s logger) ok=%v for %s", ok1, name, ok2, show(p))
		}
		if ok1 && !bytes.Equal(a, b) {
			c.Fail("EncodePdu and EncodePduDbg differ (%s) for %s", firstDiff(a, b), show(p))
		}
		c.Event(fmt.Sprintf("encode-pair-ok-%v", ok1))
		c.Event("logger-" + name)
		c.Sig("e", show(p))
		c.Sample(func() string { return show(p) })
	}
	payload := func(c *mon.Case, h agentx.Pdu, pay []byte) {
		log, name := someLogger(c.R)
		p, q := ref.Clone(h), ref.Clone(h)
		ok1 := agentx.DecodePduPayload(&p, pay)
		ok2 := agentx.DecodePduPayloadDbg(&q, pay, log)
		if ok1 != ok2 {
			c.Fail("DecodePduPayload ok=%v, DecodePduPayloadDbg (%s logger) ok=%v for %s payload %s", ok1, name, ok2, show(h), hx(pay))
		}
		if ok1 {
			if d := ref.Diff(p, q); d != "" {
				c.Fail("DecodePduPayload and DecodePduPayloadDbg differ: %s for %s payload %s", d, show(h), hx(pay))
			}
		}
		c.Event(fmt.Sprintf("payload-pair-ok-%v", ok1))
		c.Event("logger-" + name)
	}
	dec := func(c *mon.Case, m Msg) {
		log, name := someLogger(c.R)
		p, ok1 := agentx.DecodePduHeader(m.H)
		q, ok2 := agentx.DecodePduHeaderDbg(m.H, log)
		if ok1 != ok2 {
			c.Fail("DecodePduHeader ok=%v, DecodePduHeaderDbg (%s logger) ok=%v for %s", ok1, name, ok2, hx(m.H))
		}
		c.Event(fmt.Sprintf("header-pair-ok-%v", ok1))
		if ok1 {
			if d := ref.Diff(p, q); d != "" {
				c.Fail("DecodePduHeader and DecodePduHeaderDbg differ: %s for %s", d, hx(m.H))
			}
			payload(c, p, m.P)
		}
		if len(m.P) < 2048 {
			c.Sig("d", m.H, m.P)
		}
	}
	for _, fam := range Families(run, run.N(12000, 400000), run.N(5, 1)) {
		fam := fam
		run.Cases("encode-"+fam.Name, fam.N, func(c *mon.Case) { enc(c, fam.Make(c.Index, c.R)) })
		run.Cases("decode-"+fam.Name, fam.N/2+1, func(c *mon.Case) {
			b, ok := ref.EncodeAlt(fam.Make(min(fam.N-1, c.Index*2), c.R), func() bool { return c.R.IntN(3) == 0 })
			if !ok {
				c.Error("generator produced an invalid PDU")
			}
			dec(c, split(b))
		})
	}
	run.Serial("huge", run.N(8, 32), func(c *mon.Case) {
		p := hugePdu([]int{12, 13, 24 + 8, 24 + 10, 14, 15, 24 + 5, 24 + 7}[c.Index%8], c.R)
		enc(c, p)
		b, _ := ref.Encode(p)
		dec(c, split(b))
	})
	run.Cases("encode-arbitrary", run.N(25000, 600000), func(c *mon.Case) {
		p := gen.AnyPdu(c.R, gen.SmallOpt)
		if c.R.IntN(2) == 0 {
			p = gen.Break(c.R, p)
		}
		enc(c, p)
	})
	run.Cases("encode-types-flags", 256*64, func(c *mon.Case) {
		p := base(agentx.PduTag(c.Index), false)
		p.Flags = agentx.Flags(c.Index>>8*4 + c.R.IntN(4))
		p.Context = "ctx"
		enc(c, p)
	})
	run.Cases("encode-varbinds", 256*8, func(c *mon.Case) {
		for _, v := range gen.Zoo(c.R) {
			p := base(code.TagResponse, c.R.IntN(2) == 0)
			p.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3}, Tag: asn.Tag(c.Index), Value: v}}
			enc(c, p)
		}
	})
	run.Cases("encode-long-oids", 300*nOidPlaces, func(c *mon.Case) {
		enc(c, placeOid(c.Index%nOidPlaces, c.R.IntN(2) == 0, gen.OIDn(c.R, 100+c.Index/nOidPlaces)))
	})
	run.Cases("encode-getbulk", 4096, func(c *mon.Case) {
		p := base(code.TagGetBulk, c.R.IntN(2) == 0)
		p.Params = agentx.GetBulkParams{NonRepeaters: int16(gen.U16(c.R)), MaxRepeatitions: int16(gen.U16(c.R))}
		enc(c, p)
	})
	for _, fam := range WireFamilies(run, run.N(30000, 800000), run.N(25, 2)) {
		fam := fam
		run.Cases("wire-"+fam.Name, fam.N, func(c *mon.Case) { dec(c, fam.Make(c.Index, c.R)) })
	}
	run.Cases("header-sweep", 65536, func(c *mon.Case) {
		h := make([]byte, 20)
		h[0], h[1], h[2] = 1, byte(c.Index), byte(c.Index>>8)
		switch c.R.IntN(6) {
		case 0:
			h[0] = gen.B(c.R)
		case 1:
			h[3] = gen.B(c.R)
		}
		for i := 4; i < 16; i++ {
			h[i] = byte(c.R.Uint32())
		}
		ref.SetLength(h, int(gen.U32(c.R)))
		p, ok1 := agentx.DecodePduHeader(h)
		q, ok2 := agentx.DecodePduHeaderDbg(h, nop{})
		if ok1 != ok2 || ok1 && ref.DiffHeader(p, q) != "" {
			c.Fail("header %x: DecodePduHeader ok=%v %s, Dbg ok=%v %s", h, ok1, show(p), ok2, show(q))
		}
		c.Event(fmt.Sprintf("header-pair-ok-%v", ok1))
	})
	run.Cases("payload-into-any-pdu", run.N(20000, 400000), func(c *mon.Case) {
		r := c.R
		b, _ := ref.Encode(gen.Pdu(r, gen.SmallOpt))
		pay := b[20:]
		switch r.IntN(5) {
		case 0:
			pay = gen.Bytes(r, r.IntN(40))
		case 1:
			pay = nil
		case 2:
			pay = gen.Mutate(r, b)
			pay = pay[min(20, len(pay)):]
		}
		h := hostileHeader(r, len(pay))
		if r.IntN(2) == 0 {
			h.Tag, h.Flags = agentx.PduTag(b[1]), agentx.Flags(b[2])
		}
		payload(c, h, pay)
	})
	for _, k := range []string{"encode-pair-ok-true", "encode-pair-ok-false", "header-pair-ok-true", "header-pair-ok-false", "payload-pair-ok-true", "payload-pair-ok-false", "logger-re-entrant", "logger-recording"} {
		run.Need(k, 2000)
	}
}

func c08(run *mon.Run) {
	run.Rule("Every debug function runs with a recording logger on valid and malformed inputs (strings include format directives and dump look-alikes); the log is parsed. Non-trivial: one recorded call; distinct by input. Monitors: '!!!' iff failure, complete hex dump of the input (decoding) or output (successful encoding), each format fits its arguments.")
	judge := func(c *mon.Case, what string, l *capture, ok bool, dump []byte, needDump bool, desc func() string) {
		n, first := l.failures()
		if ok && n > 0 {
			c.Fail("%s succeeded but logged %q; input %s", what, trunc(first, 200), desc())
		}
		if !ok && n == 0 {
			c.Fail("%s failed without a '!!!' message; log:\n%s\ninput %s", what, trunc(l.text(), 2000), desc())
		}
		for _, m := range l.msgs {
			if s := m.badFormat(); s != "" {
				c.Fail("%s: format %q does not match its arguments: %q; input %s", what, m.format, trunc(s, 300), desc())
			}
			c.Event("messages")
			if m.formatted {
				c.Event("formatted-messages")
			}
		}
		if needDump {
			if !l.hasDump(dump) {
				c.Fail("%s: no message holds the complete hex dump of the %d bytes %s; log:\n%s", what, len(dump), hx(dump), trunc(l.text(), 2500))
			}
			c.Event("dumps-found")
		}
		c.Event(fmt.Sprintf("%s-ok-%v", what, ok))
	}
	enc := func(c *mon.Case, p agentx.Pdu) {
		l := &capture{}
		data, ok := agentx.EncodePduDbg(p, l)
		judge(c, "EncodePduDbg", l, ok, data, ok, func() string { return show(p) })
		c.Sig("e", show(p))
		c.Sample(func() string { return show(p) + " log: " + trunc(l.text(), 300) })
	}
	payload := func(c *mon.Case, p agentx.Pdu, pay []byte) {
		l := &capture{}
		h := show(p)
		ok := agentx.DecodePduPayloadDbg(&p, pay, l)
		judge(c, "DecodePduPayloadDbg", l, ok, pay, true, func() string { return h + " payload " + hx(pay) })
	}
	dec := func(c *mon.Case, m Msg) {
		l := &capture{}
		p, ok := agentx.DecodePduHeaderDbg(m.H, l)
		judge(c, "DecodePduHeaderDbg", l, ok, m.H, true, func() string { return hx(m.H) })
		if ok {
			payload(c, p, m.P)
		}
		if len(m.P) < 2048 {
			c.Sig("d", m.H, m.P)
		}
		c.Sample(func() string { return m.String() + " log: " + trunc(l.text(), 300) })
	}
	for _, fam := range Families(run, run.N(6000, 150000), run.N(12, 2)) {
		fam := fam
		run.Cases("encode-"+fam.Name, fam.N, func(c *mon.Case) { enc(c, fam.Make(c.Index, c.R)) })
		run.Cases("decode-"+fam.Name, fam.N/2+1, func(c *mon.Case) {
			b, ok := ref.EncodeAlt(fam.Make(min(fam.N-1, c.Index*2), c.R), func() bool { return c.R.IntN(3) == 0 })
			if !ok {
				c.Error("generator produced an invalid PDU")
			}
			dec(c, split(b))
		})
	}
	run.Cases("encode-arbitrary", run.N(15000, 300000), func(c *mon.Case) {
		p := gen.AnyPdu(c.R, gen.SmallOpt)
		if c.R.IntN(2) == 0 {
			p = gen.Break(c.R, p)
		}
		enc(c, p)
	})
	run.Cases("encode-varbinds", 256*2, func(c *mon.Case) {
		for _, v := range gen.Zoo(c.R) {
			p := base(code.TagResponse, c.R.IntN(2) == 0)
			p.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3}, Tag: asn.Tag(c.Index), Value: v}}
			enc(c, p)
		}
	})
	run.Cases("encode-getbulk", 2048, func(c *mon.Case) {
		p := base(code.TagGetBulk, c.R.IntN(2) == 0)
		p.Params = agentx.GetBulkParams{NonRepeaters: int16(gen.U16(c.R)), MaxRepeatitions: int16(gen.U16(c.R))}
		enc(c, p)
	})
	for _, fam := range WireFamilies(run, run.N(15000, 400000), run.N(50, 4)) {
		fam := fam
		run.Cases("wire-"+fam.Name, fam.N, func(c *mon.Case) { dec(c, fam.Make(c.Index, c.R)) })
	}
	// messages and strings beyond the usual buffer sizes
	run.Cases("large", run.N(70, 700), func(c *mon.Case) {
		r := c.R
		size := gen.Pick(r, []int{1 << 13, 1<<14 - 1, 1 << 14, 1<<15 - 3, 1 << 15, 1<<15 + 1, 40000, 1<<16 - 1, 1 << 16, 1<<16 + 5, 70000, 100000, 1<<17 + 1, 200000})
		p := base(code.TagResponse, r.IntN(2) == 0)
		switch c.Index % 6 {
		case 0, 1: // one long value
			p.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3, 6}, Tag: gen.Pick(r, []asn.Tag{code.TagOctetString, code.TagOpaque}), Value: nil}}
			if p.Varbinds[0].Tag == code.TagOpaque {
				p.Varbinds[0].Value = gen.Bytes(r, size)
			} else {
				p.Varbinds[0].Value = string(gen.Bytes(r, size))
			}
		case 2: // a long context
			p.Flags |= code.FlagNonDefaultContext
			p.Context = string(gen.Bytes(r, size))
		case 3: // many values
			for n := 0; n < size; n += 52 {
				p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: []uint32{1, 3, 6, 1, 2, uint32(n)}, Tag: code.TagOctetString, Value: "0123456789"})
			}
		case 4: // many ranges
			p = base(code.TagGet, r.IntN(2) == 0)
			for n := 0; n < size; n += 60 {
				p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: []uint32{1, 3, 6, 1, uint32(n)}, EndOid: []uint32{1, 4, 6, 2, 3, 4}})
			}
		default: // a long description
			p = base(code.TagOpen, r.IntN(2) == 0)
			o := p.Params.(agentx.OpenParams)
			o.Description = string(gen.Bytes(r, size))
			p.Params = o
		}
		enc(c, p)
		b, ok := ref.Encode(p)
		if !ok {
			c.Error("generator produced an invalid PDU")
		}
		if r.IntN(3) == 0 { // a defect somewhere
			b[20+r.IntN(len(b)-20)] ^= 0x80
		} else if r.IntN(4) == 0 {
			b = b[:len(b)-4]
			ref.SetLength(b, len(b)-20)
		}
		dec(c, split(b))
		c.Event("large-messages")
	})
	run.Cases("payload-into-any-pdu", run.N(10000, 200000), func(c *mon.Case) {
		r := c.R
		b, _ := ref.Encode(gen.Pdu(r, gen.SmallOpt))
		pay := b[20:]
		if r.IntN(3) == 0 {
			pay = gen.Bytes(r, r.IntN(40))
		}
		h := hostileHeader(r, len(pay))
		if r.IntN(2) == 0 {
			h.Tag, h.Flags = agentx.PduTag(b[1]), agentx.Flags(b[2])
		}
		payload(c, h, pay)
	})
	for _, k := range []string{"EncodePduDbg-ok-true", "EncodePduDbg-ok-false", "DecodePduHeaderDbg-ok-true", "DecodePduHeaderDbg-ok-false", "DecodePduPayloadDbg-ok-true", "DecodePduPayloadDbg-ok-false"} {
		run.Need(k, 1000)
	}
	run.Need("dumps-found", 20000)
	run.Need("formatted-messages", 100000)
}
