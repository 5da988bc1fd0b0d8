package props

import (
	"encoding/hex"
	"fmt"
	"verif/harness/code"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

// Msg is a message as a receiver sees it: the header bytes and the payload.
type Msg struct{ H, P []byte }

func split(b []byte) Msg {
	n := min(20, len(b))
	return Msg{b[:n:n], b[n:]}
}

func (m Msg) String() string { return fmt.Sprintf("header=%s payload=%s", hx(m.H), hx(m.P)) }

func hx(b []byte) string {
	if len(b) > 1500 {
		return hex.EncodeToString(b[:1500]) + fmt.Sprintf("...(%d bytes)", len(b))
	}
	return hex.EncodeToString(b)
}

// WFam is a family of arbitrary messages.
type WFam struct {
	Name string
	N    int
	Make func(i int, r gen.R) Msg
}

// seedMessages returns short valid messages of every type, flag set and
// varbind type: the corpus the exhaustive damage families work on.
func seedMessages() [][]byte {
	var out [][]byte
	add := func(p agentx.Pdu) {
		b, ok := ref.Encode(p)
		if !ok {
			panic("bad seed message")
		}
		out = append(out, b)
	}
	for tag := agentx.PduTag(1); tag <= 18; tag++ {
		for _, order := range []bool{false, true} {
			p := base(tag, order)
			if ref.HasRanges[tag] {
				p.Ranges = []agentx.SearchRange{{StartOid: []uint32{1, 3, 6, 1, 2, 5}, StartIncluded: 1, EndOid: []uint32{7, 8}}, {}}
			}
			if ref.HasVarbinds[tag] {
				p.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3, 6, 1, 2, 5}, Tag: code.TagNull}, {Oid: []uint32{9}, Tag: code.TagInteger32, Value: int32(-3)}}
			}
			add(p)
			if ref.AllowedFlags[tag]&code.FlagNonDefaultContext != 0 {
				p.Flags |= code.FlagNonDefaultContext
				p.Context = "ctx12"
				p.Ranges, p.Varbinds = nil, nil
				add(p)
			}
		}
	}
	for i, t := range ref.VarbindTags {
		for _, order := range []bool{false, true} {
			p := base([]agentx.PduTag{8, 12, 14, 15, 18}[i%5], order)
			var v interface{}
			switch t {
			case code.TagInteger32:
				v = int32(0x01020304)
			case code.TagOctetString:
				v = "hello"
			case code.TagObjectId:
				v = []uint32{1, 3, 6, 1, 4, 3}
			case code.TagIpAddress:
				v = [4]byte{10, 20, 30, 40}
			case code.TagCounter32, code.TagGauge32, code.TagTimeTicks:
				v = uint32(0x01020304)
			case code.TagOpaque:
				v = []byte{1, 2, 3, 4, 5, 6}
			case code.TagCounter64:
				v = uint64(0x0102030405060708)
			}
			p.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3, 6, 1, 2}, Tag: t, Value: v}}
			add(p)
		}
	}
	for _, order := range []bool{false, true} {
		p := base(code.TagRegister, order)
		p.Params = agentx.RegisterParams{Timeout: 1, Priority: 2, RangeSubid: 4, Subtree: []uint32{1, 3, 6, 1, 2}, UpperBound: 99}
		add(p)
		q := base(code.TagUnregister, order)
		q.Params = agentx.UnregisterParams{Priority: 2, RangeSubid: 4, Subtree: []uint32{1, 3, 6, 1, 2}, UpperBound: 99}
		add(q)
	}
	return out
}

// WireFamilies returns families of damaged, hostile and alternative messages.
func WireFamilies(run *mon.Run, random, stride int) []WFam {
	var fams []WFam
	add := func(name string, n int, mk func(i int, r gen.R) Msg) {
		if stride > 1 {
			fams = append(fams, WFam{name, (n + stride - 1) / stride, func(i int, r gen.R) Msg {
				return mk(min(n-1, i*stride+r.IntN(stride)), r)
			}})
			return
		}
		fams = append(fams, WFam{name, n, mk})
	}
	seeds := seedMessages()

	// one byte replaced by each value, at every position
	type pos struct{ s, i int }
	var ps []pos
	for s, b := range seeds {
		for i := range b {
			ps = append(ps, pos{s, i})
		}
	}
	add("byte-replaced", len(ps)*255, func(i int, r gen.R) Msg {
		p := ps[i/255]
		b := append([]byte(nil), seeds[p.s]...)
		b[p.i] += byte(1 + i%255)
		return split(b)
	})
	// every length-like word replaced by every boundary value
	var wp []pos
	for s, b := range seeds {
		for i := 16; i+4 <= len(b); i += 4 {
			wp = append(wp, pos{s, i})
		}
	}
	bw := gen.Bounds32()
	add("word-replaced", len(wp)*len(bw), func(i int, r gen.R) Msg {
		p := wp[i/len(bw)]
		b := append([]byte(nil), seeds[p.s]...)
		ref.Order(agentx.Flags(b[2])).PutUint32(b[p.i:], bw[i%len(bw)])
		return split(b)
	})
	// every truncation, with and without a repaired length field
	add("truncated", len(ps)*2, func(i int, r gen.R) Msg {
		p := ps[i/2]
		b := append([]byte(nil), seeds[p.s][:p.i]...)
		if i%2 == 1 && len(b) >= 20 {
			ref.SetLength(b, len(b)-20)
		}
		return split(b)
	})
	add("extended", len(seeds)*24*3, func(i int, r gen.R) Msg {
		b := append([]byte(nil), seeds[i/72]...)
		n := i / 3 % 24
		ext := make([]byte, n+1)
		if i%3 == 2 {
			ext = gen.Bytes(r, n+1)
		}
		b = append(b, ext...)
		if i%3 != 0 {
			ref.SetLength(b, len(b)-20)
		}
		return split(b)
	})
	// the announced payload size differs from what is supplied
	add("size-mismatch", len(seeds)*40, func(i int, r gen.R) Msg {
		b := append([]byte(nil), seeds[i/40]...)
		n := len(b) - 20
		d := []int{-8, -4, -3, -2, -1, 1, 2, 3, 4, 5, 6, 7, 8, 12, 16, 20, 64, 128, 256, 1024, 4096, 65536, 1 << 20, 1 << 24, 1 << 30,
			-n, -n - 4, -2*n - 8, 1<<31 - 4 - n, -1 << 31, 1 << 8, 1 << 16, 1<<16 - 4, 1<<8 - 4, -16, -12, 24, 28, 32, 40}[i%40]
		ref.SetLength(b, n+d)
		return split(b)
	})
	// header: every type x flags pair, every version, reserved byte, length
	add("type-flags", 65536, func(i int, r gen.R) Msg {
		b := append([]byte(nil), seeds[r.IntN(len(seeds))]...)
		b[1], b[2] = byte(i), byte(i>>8)
		ref.SetLength(b, len(b)-20)
		return split(b)
	})
	add("header-bytes", 20*256*36, func(i int, r gen.R) Msg {
		tag := agentx.PduTag(1 + i/(20*256)%18)
		b, _ := ref.Encode(base(tag, i/(20*256)/18 == 1))
		b = append([]byte(nil), b...)
		b[i%20] = byte(i / 20)
		return split(b)
	})
	add("header-sizes", 80*18*2, func(i int, r gen.R) Msg {
		b, _ := ref.Encode(base(agentx.PduTag(1+i/80%18), i/80/18 == 1))
		n := i % 80
		h := make([]byte, n)
		copy(h, b)
		if i%3 == 0 {
			copy(h, b[:20])
		}
		if n == 20 {
			h = gen.Mutate(r, h)
		}
		return Msg{h, b[20:]}
	})
	add("varbind-types", 65536*2, func(i int, r gen.R) Msg {
		p := base(code.TagResponse, i%2 == 0)
		t := uint16(i / 2)
		vt := asn.Tag(t) // the type whose value bytes follow
		if !ref.IsVarbindTag(vt) {
			vt = gen.Pick(r, ref.VarbindTags)
		}
		p.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3, 6, 1, 2, 1}, Tag: vt, Value: gen.Value(r, vt, gen.SmallOpt)}}
		b, _ := ref.Encode(p)
		ref.Order(p.Flags).PutUint16(b[28:], t)
		return split(b)
	})
	add("oid-headers", 256*256, func(i int, r gen.R) Msg {
		// every n_subid x prefix pair, followed by the right, a short or a long tail
		n, prefix := i%256, byte(i/256)
		order := r.IntN(2) == 0
		p := base(code.TagRemoveAgentCaps, order)
		b, _ := ref.Encode(p)
		b = append([]byte(nil), b[:20]...)
		b = append(b, byte(n), prefix, 0, 0)
		k := 4 * n
		switch r.IntN(6) {
		case 0:
			k = max(0, k-1-r.IntN(8))
		case 1:
			k += 1 + r.IntN(8)
		}
		b = append(b, gen.Bytes(r, k)...)
		ref.SetLength(b, len(b)-20)
		return split(b)
	})
	// claimed string lengths at every string place, tail as claimed or not
	add("string-claims", 6000, func(i int, r gen.R) Msg {
		p := placeStr(i%nStrPlaces, r.IntN(2) == 0, "")
		b, _ := ref.Encode(p)
		b = append([]byte(nil), b...)
		o := ref.Order(p.Flags)
		// find a zero word in the payload and turn it into a claim
		var zs []int
		for k := 20; k+4 <= len(b); k += 4 {
			if o.Uint32(b[k:]) == 0 {
				zs = append(zs, k)
			}
		}
		if len(zs) == 0 {
			return split(b)
		}
		at := gen.Pick(r, zs)
		claim := gen.U32(r)
		if gen.Chance(r, 1, 2) {
			claim = uint32(r.IntN(40))
		}
		o.PutUint32(b[at:], claim)
		have := int(min(claim, 300))
		have = max(0, have+gen.Pick(r, []int{0, 0, 0, -1, 1, -3, 4}))
		pad := (4 - have%4) % 4
		fill := gen.Bytes(r, have)
		fill = append(fill, make([]byte, pad)...)
		if pad > 0 && gen.Chance(r, 1, 4) {
			fill[have+r.IntN(pad)] = gen.B(r)
		}
		t := append([]byte(nil), b[at+4:]...)
		b = append(append(b[:at+4:at+4], fill...), t...)
		ref.SetLength(b, len(b)-20)
		return split(b)
	})
	// padding and reserved bytes: each made non-zero in messages of all sorts
	add("zero-bytes", 12000, func(i int, r gen.R) Msg {
		b, _ := ref.Encode(gen.Pdu(r, gen.SmallOpt))
		b = append([]byte(nil), b...)
		var zs []int
		for k, c := range b {
			if c == 0 && (k == 3 || k >= 20) {
				zs = append(zs, k)
			}
		}
		if len(zs) > 0 {
			b[gen.Pick(r, zs)] = gen.Pick(r, []byte{1, 2, 128, 255, gen.B(r)})
		}
		return split(b)
	})
	// messages in the legal forms the library does not produce
	add("alternative-forms", 20000, func(i int, r gen.R) Msg {
		p := gen.Pdu(r, gen.SmallOpt)
		q := 1 + r.IntN(3)
		b, ok := ref.EncodeAlt(p, func() bool { return r.IntN(q) == 0 })
		if !ok {
			panic("alternative form")
		}
		return split(b)
	})
	add("oid-forms", 129*nOidPlaces*2, func(i int, r gen.R) Msg {
		n := i / nOidPlaces % 129
		id := make([]uint32, n)
		for j := range id {
			id[j] = gen.U32(r)
		}
		copy(id, []uint32{1, 3, 6, 1, uint32(1 + r.IntN(255))})
		b, _ := ref.EncodeAlt(placeOid(i%nOidPlaces, i/nOidPlaces/129 == 0, id), func() bool { return true })
		return split(b)
	})
	// damaged by several edits
	fams = append(fams, WFam{"mutated", random, func(i int, r gen.R) Msg {
		var b []byte
		if r.IntN(3) == 0 {
			b = gen.Pick(r, seeds)
		} else {
			b, _ = ref.Encode(gen.Pdu(r, gen.SmallOpt))
		}
		return split(gen.Mutate(r, b))
	}})
	fams = append(fams, WFam{"spliced", random / 4, func(i int, r gen.R) Msg {
		// header of one message on the payload of another
		a, _ := ref.Encode(gen.Pdu(r, gen.SmallOpt))
		b, _ := ref.Encode(gen.Pdu(r, gen.SmallOpt))
		c := append(append([]byte(nil), a[:20]...), b[20:]...)
		ref.SetLength(c, len(c)-20)
		return split(c)
	}})
	fams = append(fams, WFam{"noise", random / 4, func(i int, r gen.R) Msg {
		b := gen.Bytes(r, 20+4*r.IntN(30))
		b[0], b[1], b[3] = 1, byte(1+r.IntN(18)), 0
		b[2] = byte(gen.Flags(r, agentx.PduTag(b[1])))
		for k := 20; k < len(b); k++ { // mostly small numbers so that parsing gets somewhere
			if r.IntN(3) > 0 {
				b[k] = byte(r.IntN(3))
			}
		}
		ref.SetLength(b, len(b)-20)
		return split(b)
	}})
	fams = append(fams, WFam{"structured-noise", random / 2, func(i int, r gen.R) Msg {
		// grammar-aware: a list of well-formed pieces with a twist
		p := base([]agentx.PduTag{5, 6, 7, 8, 12, 14, 15, 18}[r.IntN(8)], r.IntN(2) == 0)
		b, _ := ref.Encode(p)
		b = append([]byte(nil), b...)
		o := ref.Order(p.Flags)
		w16 := func(v uint16) { var t [2]byte; o.PutUint16(t[:], v); b = append(b, t[:]...) }
		w32 := func(v uint32) { var t [4]byte; o.PutUint32(t[:], v); b = append(b, t[:]...) }
		twist := func() bool { return r.IntN(12) == 0 }
		oid := func() {
			n := r.IntN(5)
			var res, inc byte
			if twist() {
				res = gen.B(r)
			}
			if twist() {
				inc = byte(r.IntN(3))
			}
			m := n
			if twist() {
				m = int(gen.B(r))
			}
			b = append(b, byte(m), gen.B(r), inc, res)
			for k := 0; k < n; k++ {
				w32(gen.U32(r))
			}
		}
		for k := r.IntN(4); k >= 0; k-- {
			if ref.HasRanges[p.Tag] {
				oid()
				if !twist() {
					oid()
				}
				continue
			}
			t := uint16(gen.Pick(r, ref.VarbindTags))
			vt := asn.Tag(t)
			if twist() {
				t = gen.U16(r)
			}
			w16(t)
			if twist() {
				w16(gen.U16(r))
			} else {
				w16(0)
			}
			oid()
			switch vt {
			case 2, 65, 66, 67:
				w32(gen.U32(r))
			case 70:
				w32(gen.U32(r))
				w32(gen.U32(r))
			case 6:
				oid()
			case 64:
				n := uint32(4)
				if twist() {
					n = uint32(r.IntN(9))
				}
				w32(n)
				w32(gen.U32(r))
			case 4, 68:
				n := r.IntN(12)
				c := uint32(n)
				if twist() {
					c = gen.U32(r)
				}
				w32(c)
				b = append(b, gen.Bytes(r, n)...)
				for q := n; q%4 != 0; q++ {
					if twist() {
						b = append(b, gen.B(r))
					} else {
						b = append(b, 0)
					}
				}
			}
		}
		ref.SetLength(b, len(b)-20)
		return split(b)
	}})
	return fams
}

// refDecode runs the reference on a message. It also returns the decoded
// header so that callers can drive the library the same way.
func refDecode(m Msg) (pdu agentx.Pdu, v ref.Verdict, why string) {
	h, v, why := ref.DecodeHeader(m.H)
	if v != ref.Accept {
		return h, v, "header: " + why
	}
	return ref.DecodePayload(h, m.P)
}

// libDecode drives the library as a receiver does.
func libDecode(m Msg) (pdu agentx.Pdu, hok, pok bool) {
	pdu, hok = agentx.DecodePduHeader(m.H)
	if !hok {
		return pdu, false, false
	}
	pok = agentx.DecodePduPayload(&pdu, m.P)
	return
}

func libDecodeDbg(m Msg, log interface {
	Write(string)
	Writef(string, ...interface{})
}) (pdu agentx.Pdu, hok, pok bool) {
	pdu, hok = agentx.DecodePduHeaderDbg(m.H, log)
	if !hok {
		return pdu, false, false
	}
	pok = agentx.DecodePduPayloadDbg(&pdu, m.P, log)
	return
}

type nop struct{}

func (nop) Write(string)                  {}
func (nop) Writef(string, ...interface{}) {}
