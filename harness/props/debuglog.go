package props

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
	"verif/harness/code"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

func init() { reg("C33", c33) }

var dumpLine = regexp.MustCompile(`^ *([0-9A-F]{8})  ((?:[0-9A-F]{2} ?)*)$`)

// tame replaces what could make a string look like a line of a dump.
func tame(s string) string {
	return strings.NewReplacer("\n", " ", "\r", " ", "00", "0x").Replace(s)
}

// tamed is the PDU with strings that stay on one line.
func tamed(p agentx.Pdu) agentx.Pdu {
	p = ref.Clone(p)
	p.Context = tame(p.Context)
	switch x := p.Params.(type) {
	case agentx.OpenParams:
		x.Description = tame(x.Description)
		p.Params = x
	case agentx.AddAgentCapsParams:
		x.Description = tame(x.Description)
		p.Params = x
	}
	for i := range p.Varbinds {
		if s, ok := p.Varbinds[i].Value.(string); ok {
			p.Varbinds[i].Value = tame(s)
		}
	}
	return p
}

// shown checks every dump line of the log against data and counts how often
// each byte is shown.
func (l *capture) shown(data []byte) (count []int, lines int, bad string) {
	count = make([]int, len(data))
	for _, m := range l.msgs {
		if len(m.text) < 10 {
			continue
		}
		for _, s := range strings.Split(m.text, "\n") {
			f := dumpLine.FindStringSubmatch(s)
			if f == nil {
				continue
			}
			lines++
			at, _ := strconv.ParseUint(f[1], 16, 64)
			hexes := strings.Fields(f[2])
			if int(at)+len(hexes) > len(data) {
				return count, lines, fmt.Sprintf("line %q goes beyond the %d bytes", s, len(data))
			}
			for k, h := range hexes {
				b, _ := strconv.ParseUint(h, 16, 8)
				if data[int(at)+k] != byte(b) {
					return count, lines, fmt.Sprintf("line %q, but byte %d is %02X", s, int(at)+k, data[int(at)+k])
				}
				count[int(at)+k]++
			}
		}
	}
	return
}

// words is the text of the messages without the dump lines.
func (l *capture) words() (out []string) {
	for _, m := range l.msgs {
		var keep []string
		for _, s := range strings.Split(m.text, "\n") {
			if !dumpLine.MatchString(s) {
				keep = append(keep, s)
			}
		}
		if len(keep) > 0 {
			out = append(out, strings.Join(keep, "\n"))
		}
	}
	return
}

// find is strings.Index, for numbers and OIDs as whole words.
func find(s, t string) int {
	word := func(b byte) bool {
		return b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z' || b == '.'
	}
	number := t != "" && strings.Trim(t, "0123456789.-") == ""
	for from := 0; ; {
		k := strings.Index(s[from:], t)
		if k < 0 {
			return -1
		}
		k += from
		if !number || (k == 0 || !word(s[k-1])) && (k+len(t) == len(s) || !word(s[k+len(t)])) {
			return k
		}
		from = k + 1
	}
}

// inOrder tells whether the messages contain the texts one after another.
func (l *capture) inOrder(texts []string) (missing string) {
	msgs := l.words()
	i, at := 0, 0
	for _, t := range texts {
		for ; i < len(msgs); i, at = i+1, 0 {
			if k := find(msgs[i][at:], t); k >= 0 {
				at += k + len(t)
				break
			}
		}
		if i == len(msgs) {
			return t
		}
	}
	return ""
}

// elementTexts are the texts of the list elements a message carries.
func elementTexts(p agentx.Pdu) (out []string) {
	for _, r := range p.Ranges {
		out = append(out, refRange(r))
	}
	for _, v := range p.Varbinds {
		out = append(out, refVarbind(v))
	}
	return
}

// paramTexts are texts of the parameters that take a word or more.
func paramTexts(p agentx.Pdu) (out []string) {
	if p.Flags&code.FlagNonDefaultContext != 0 {
		out = append(out, p.Context)
	}
	id := func(x []uint32) {
		if len(x) > 0 {
			out = append(out, refText(x))
		}
	}
	switch x := p.Params.(type) {
	case agentx.OpenParams:
		out = append(out, fmt.Sprint(x.Timeout))
		id(x.Oid)
		out = append(out, x.Description)
	case agentx.AddAgentCapsParams:
		id(x.Oid)
		out = append(out, x.Description)
	case agentx.RemoveAgentCapsParams:
		id(x.Oid)
	case agentx.CloseParams:
		out = append(out, refReason(x.Reason))
	case agentx.RegisterParams:
		out = append(out, fmt.Sprint(x.Timeout), fmt.Sprint(x.Priority), fmt.Sprint(x.RangeSubid))
		id(x.Subtree)
		if x.RangeSubid != 0 {
			out = append(out, fmt.Sprint(x.UpperBound))
		}
	case agentx.UnregisterParams:
		out = append(out, fmt.Sprint(x.Priority), fmt.Sprint(x.RangeSubid))
		id(x.Subtree)
		if x.RangeSubid != 0 {
			out = append(out, fmt.Sprint(x.UpperBound))
		}
	case agentx.GetBulkParams:
		out = append(out, fmt.Sprint(x.NonRepeaters), fmt.Sprint(x.MaxRepeatitions))
	case agentx.ResponseParams:
		out = append(out, fmt.Sprint(x.SysUpTime), refError(x.Error), fmt.Sprint(x.Index))
	}
	return
}

func c33(run *mon.Run) {
	run.Rule("Debug functions run with a recording logger on PDUs and messages whose strings stay on one line. Every line of the log that is a line of a hex dump is compared with the bytes at that offset; texts of the values are looked up in the log in order. Non-trivial: one call whose log held at least one dump line that was compared; distinct by input.")
	enc := func(c *mon.Case, p agentx.Pdu) {
		p = tamed(p)
		want := strings.Split(p.String(0), "\n")
		l := &capture{}
		data, ok := agentx.EncodePduDbg(p, l)
		c.Event(fmt.Sprintf("encode-ok-%v", ok))
		for i := range want {
			want[i] = strings.TrimSpace(want[i])
		}
		if s := l.inOrder(want); s != "" {
			c.Fail("the log of EncodePduDbg does not show the PDU it was given: line %q is missing; log:\n%s\nPDU %s", s, trunc(l.text(), 2500), show(p))
		}
		if !ok {
			return
		}
		_, lines, bad := l.shown(data)
		if bad != "" {
			c.Fail("the log of EncodePduDbg shows other bytes than it returns: %s; %s", bad, show(p))
		}
		c.EventN("dump-lines", lines)
		q := carried(p)
		if s := l.inOrder(append(append([]string{fmt.Sprint(q.SessionId), fmt.Sprint(q.TransactionId), fmt.Sprint(q.PacketId), fmt.Sprint(len(data) - 20)}, paramTexts(q)...), elementTexts(q)...)); s != "" {
			c.Fail("the log of EncodePduDbg does not show %q; log:\n%s\nPDU %s", s, trunc(l.text(), 2500), show(p))
		}
		c.Sig("e", data)
		c.Sample(func() string { return fmt.Sprintf("%s: %d dump lines", show(p), lines) })
	}
	covered := func(c *mon.Case, what string, l *capture, data []byte, ok bool) {
		count, lines, bad := l.shown(data)
		if bad != "" {
			c.Fail("the log of %s shows bytes it was not given: %s; input %s", what, bad, hx(data))
		}
		c.EventN("dump-lines", lines)
		c.Event(fmt.Sprintf("%s-ok-%v", what, ok))
		if !ok {
			return
		}
		for i, n := range count {
			if n < 2 {
				c.Fail("%s succeeded, but byte %d is shown in no step of the log; input %s; log:\n%s", what, i, hx(data), trunc(l.text(), 3000))
			}
		}
		c.EventN("bytes-shown", len(data))
	}
	dec := func(c *mon.Case, m Msg) {
		l := &capture{}
		p, ok := agentx.DecodePduHeaderDbg(m.H, l)
		covered(c, "DecodePduHeaderDbg", l, m.H, ok)
		if !ok {
			return
		}
		if s := l.inOrder([]string{refPduTag(p.Tag), refFlags(p.Flags), fmt.Sprint(p.SessionId), fmt.Sprint(p.TransactionId), fmt.Sprint(p.PacketId), fmt.Sprint(p.PayloadSize)}); s != "" {
			c.Fail("the log of DecodePduHeaderDbg does not show %q; log:\n%s\nheader %s", s, trunc(l.text(), 2500), hx(m.H))
		}
		l = &capture{}
		ok = agentx.DecodePduPayloadDbg(&p, m.P, l)
		covered(c, "DecodePduPayloadDbg", l, m.P, ok)
		if ok {
			if s := l.inOrder(append(paramTexts(p), elementTexts(p)...)); s != "" {
				c.Fail("the log of DecodePduPayloadDbg does not show %q; log:\n%s\nmessage %s", s, trunc(l.text(), 2500), m)
			}
			c.EventN("elements-shown", len(p.Ranges)+len(p.Varbinds))
		}
		c.Sig("d", m.H, m.P)
	}
	wire := func(c *mon.Case, p agentx.Pdu) []byte {
		b, ok := ref.EncodeAlt(tamed(p), func() bool { return c.R.IntN(3) == 0 })
		if !ok {
			c.Error("generator produced an invalid PDU: %s", show(p))
		}
		return append([]byte(nil), b...)
	}
	for _, fam := range Families(run, run.N(12000, 300000), run.N(8, 1)) {
		fam := fam
		if strings.Contains(fam.Name, "large") {
			fam.N = fam.N/4 + 1
		}
		run.Cases("encode-"+fam.Name, fam.N, func(c *mon.Case) { enc(c, fam.Make(c.Index, c.R)) })
		run.Cases("decode-"+fam.Name, fam.N, func(c *mon.Case) { dec(c, split(wire(c, fam.Make(c.Index, c.R)))) })
	}
	run.Cases("encode-arbitrary", run.N(15000, 300000), func(c *mon.Case) {
		p := gen.AnyPdu(c.R, gen.SmallOpt)
		if c.R.IntN(2) == 0 {
			p = gen.Break(c.R, p)
		}
		enc(c, p)
	})
	// damaged messages: what is shown on the way to the failure is still true
	run.Cases("damaged", run.N(30000, 800000), func(c *mon.Case) {
		r := c.R
		b := wire(c, gen.Pdu(r, gen.SmallOpt))
		for k := 1 + r.IntN(2); k > 0; k-- {
			switch r.IntN(4) {
			case 0:
				b = b[:max(0, len(b)-4*r.IntN(4))]
			case 1:
				b = append(b, make([]byte, 4*r.IntN(3))...)
			case 2:
				if len(b) > 0 {
					b[r.IntN(len(b))] = gen.Pick(r, []byte{0, 1, 4, 5, 127, 128, 255})
				}
			default:
				if len(b) > 24 {
					i := 20 + 4*r.IntN((len(b)-20)/4)
					ref.Order(agentx.Flags(b[2])).PutUint32(b[i:], gen.U32(r))
				}
			}
		}
		if len(b) >= 20 && r.IntN(4) > 0 {
			ref.SetLength(b, len(b)-20)
		}
		dec(c, split(b))
	})
	run.Cases("varbinds", len(ref.VarbindTags)*run.N(80, 1500), func(c *mon.Case) {
		r := c.R
		t := ref.VarbindTags[c.Index%len(ref.VarbindTags)]
		p := base(gen.Pick(r, []agentx.PduTag{8, 12, 14, 15, 18}), r.IntN(2) == 0)
		for k := 1 + r.IntN(4); k > 0; k-- {
			p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: gen.OID(r), Tag: t, Value: gen.Value(r, t, gen.SmallOpt)})
		}
		enc(c, p)
		dec(c, split(wire(c, p)))
	})
	// strings of several lines: only the texts are looked up
	run.Cases("raw-strings", run.N(4000, 80000), func(c *mon.Case) {
		r := c.R
		str := func() string {
			b := make([]byte, 1+r.IntN(12))
			for i := range b {
				b[i] = gen.Pick(r, []byte("ab%d\n\r\t \x00{}:\n!"))
			}
			return string(b)
		}
		p := base(gen.Pick(r, []agentx.PduTag{8, 12, 14, 15, 18, 1, 16}), r.IntN(2) == 0)
		switch x := p.Params.(type) {
		case agentx.OpenParams:
			x.Description = str()
			p.Params = x
		case agentx.AddAgentCapsParams:
			x.Description = str()
			p.Params = x
		default:
			for k := 1 + r.IntN(3); k > 0; k-- {
				p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: gen.OID(r), Tag: code.TagOctetString, Value: str()})
			}
		}
		if p.Tag != 1 && r.IntN(2) == 0 {
			p.Flags |= code.FlagNonDefaultContext
			p.Context = str()
		}
		l := &capture{}
		b, ok := agentx.EncodePduDbg(p, l)
		if !ok {
			c.Fail("EncodePduDbg refuses %s", show(p))
		}
		if s := l.inOrder(append(paramTexts(p), elementTexts(p)...)); s != "" {
			c.Fail("the log of EncodePduDbg does not show %q; log:\n%s\nPDU %s", s, trunc(l.text(), 2500), show(p))
		}
		q, ok := agentx.DecodePduHeader(b[:20])
		l = &capture{}
		if !ok || !agentx.DecodePduPayloadDbg(&q, b[20:], l) {
			c.Fail("decoding refuses what was encoded: %s", show(p))
		}
		if s := l.inOrder(append(paramTexts(p), elementTexts(p)...)); s != "" {
			c.Fail("the log of DecodePduPayloadDbg does not show %q; log:\n%s\nmessage %s", s, trunc(l.text(), 2500), split(b))
		}
		c.EventN("raw-strings", 2)
		c.Sig("raw", b)
	})
	// every message arrives in the same buffer; the PDU to encode is changed in place
	var rx []byte
	run.Serial("one-buffer", run.N(3000, 60000), func(c *mon.Case) {
		r := c.R
		p := tamed(gen.Pdu(r, gen.SmallOpt))
		for k := 0; k < 4; k++ {
			rx = append(rx[:0], wire(c, p)...)
			dec(c, Msg{rx[:20], rx[20:]})
			enc(c, p)
			for _, x := range cells(&p) {
				if x.u != nil && len(*x.u) > 4 {
					(*x.u)[4+r.IntN(len(*x.u)-4)] ^= 1 << r.IntN(32)
				}
				if x.b != nil && len(*x.b) > 0 {
					(*x.b)[r.IntN(len(*x.b))] ^= 1 << r.IntN(8)
				}
			}
			p.SessionId, p.TransactionId = gen.U32(r), gen.U32(r)
			c.Event("messages-in-one-buffer")
		}
	})
	// strings whose chunk is shown in thousands of lines
	run.Cases("long-strings", run.N(60, 600), func(c *mon.Case) {
		r := c.R
		size := gen.Pick(r, []int{1000, 4090, 8188, 8192, 8196, 9000, 16384, 20000, 32768, 40000, 65536, 70000}) + r.IntN(9) - 4
		if run.Thorough() && r.IntN(3) == 0 {
			size *= 4
		}
		s := tame(string(gen.Bytes(r, size)))
		p := placeStr(c.Index%nStrPlaces, r.IntN(2) == 0, s)
		enc(c, p)
		dec(c, split(wire(c, p)))
	})
	run.Need("dump-lines", 200000)
	run.Need("bytes-shown", 200000)
	run.Need("elements-shown", 20000)
	for _, k := range []string{"encode-ok-true", "encode-ok-false", "DecodePduHeaderDbg-ok-false", "DecodePduPayloadDbg-ok-true", "DecodePduPayloadDbg-ok-false"} {
		run.Need(k, 500)
	}
}
