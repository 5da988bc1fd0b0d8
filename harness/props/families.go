package props

import (
	"sort"
	"verif/harness/code"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/pduerror"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/ref"
)

// Fam is a family of valid PDUs: a systematic sweep or a random population.
type Fam struct {
	Name string
	N    int
	Make func(i int, r gen.R) agentx.Pdu
}

func base(tag agentx.PduTag, order bool) agentx.Pdu {
	p := agentx.Pdu{Tag: tag, SessionId: 0x01020304, TransactionId: 0x05060708, PacketId: 0x090A0B0C}
	if order {
		p.Flags = code.FlagNetworkByteOrder
	}
	switch tag {
	case code.TagOpen:
		p.Params = agentx.OpenParams{Timeout: 5, Oid: []uint32{1, 3, 6, 1, 4, 1, 7}, Description: "sub"}
	case code.TagClose:
		p.Params = agentx.CloseParams{Reason: code.CloseReasonShutdown}
	case code.TagRegister:
		p.Params = agentx.RegisterParams{Timeout: 2, Priority: 127, Subtree: []uint32{1, 3, 6, 1, 2, 1, 1}}
	case code.TagUnregister:
		p.Params = agentx.UnregisterParams{Priority: 127, Subtree: []uint32{1, 3, 6, 1, 2, 1, 1}}
	case code.TagGetBulk:
		p.Params = agentx.GetBulkParams{NonRepeaters: 1, MaxRepeatitions: 10}
	case code.TagAddAgentCaps:
		p.Params = agentx.AddAgentCapsParams{Oid: []uint32{1, 3, 6, 1, 4, 1, 7, 2}, Description: "capability"}
	case code.TagRemoveAgentCaps:
		p.Params = agentx.RemoveAgentCapsParams{Oid: []uint32{1, 3, 6, 1, 4, 1, 7, 2}}
	case code.TagResponse:
		p.Params = agentx.ResponseParams{SysUpTime: 77, Error: 0, Index: 0}
	default:
		p.Params = agentx.NoParams{}
	}
	return p
}

func dedup(xs []int) []int {
	sort.Ints(xs)
	out := xs[:0]
	for i, x := range xs {
		if i == 0 || x != xs[i-1] {
			out = append(out, x)
		}
	}
	return out
}

// strLens lists the string lengths swept: all small ones, powers of two with
// their neighbours, and the source dictionary.
func strLens(maxLen int) []int {
	var l []int
	for i := 0; i <= 300; i++ {
		l = append(l, i)
	}
	for k := 9; k <= 17; k++ {
		for d := -4; d <= 4; d++ {
			l = append(l, 1<<k+d)
		}
	}
	for _, n := range []int{500, 1000, 1400, 1472, 1500, 10000, 65507, 65515, 100000} {
		l = append(l, n, n-1, n+1)
	}
	for _, v := range gen.TheDict.Ints {
		if v <= 1<<17 {
			l = append(l, int(v))
		}
	}
	l = dedup(l)
	for len(l) > 0 && l[len(l)-1] > maxLen {
		l = l[:len(l)-1]
	}
	return l
}

func listCounts(maxN int) []int {
	var l []int
	for i := 0; i <= 70; i++ {
		l = append(l, i)
	}
	l = append(l, 95, 96, 97, 99, 100, 101, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 300, 500, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097)
	for _, v := range gen.TheDict.Ints {
		if v <= 3000 {
			l = append(l, int(v))
		}
	}
	l = dedup(l)
	for len(l) > 0 && l[len(l)-1] > maxN {
		l = l[:len(l)-1]
	}
	return l
}

func words() []uint32 {
	m := map[uint32]bool{}
	for _, v := range gen.Bounds32() {
		m[v] = true
	}
	for _, v := range gen.TheDict.Ints {
		m[uint32(v)] = true
	}
	for i := uint32(0); i < 300; i++ {
		m[i] = true
	}
	for b := uint32(0); b < 4; b++ {
		for x := uint32(0); x < 256; x += 5 {
			m[x<<(8*b)] = true
			m[^(x << (8 * b))] = true
		}
	}
	var l []uint32
	for v := range m {
		l = append(l, v)
	}
	sort.Slice(l, func(i, j int) bool { return l[i] < l[j] })
	return l
}

// placeStr puts a string at one of the places a PDU can carry one.
const nStrPlaces = 12

func placeStr(place int, order bool, s string) agentx.Pdu {
	switch place {
	case 0:
		p := base(code.TagGet, order)
		p.Flags |= code.FlagNonDefaultContext
		p.Context = s
		p.Ranges = []agentx.SearchRange{{StartOid: []uint32{1, 3, 6, 1, 2, 1}, EndOid: []uint32{1, 3, 6, 1, 2, 2}}}
		return p
	case 1:
		p := base(code.TagOpen, order)
		p.Params = agentx.OpenParams{Timeout: 1, Oid: []uint32{1, 3, 6, 1, 4, 1}, Description: s}
		return p
	case 2:
		p := base(code.TagAddAgentCaps, order)
		p.Params = agentx.AddAgentCapsParams{Oid: []uint32{1, 3, 6, 1, 4, 1}, Description: s}
		return p
	case 3:
		p := base(code.TagResponse, order)
		p.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3, 6, 1, 2, 1, 1, 1, 0}, Tag: code.TagOctetString, Value: s}}
		return p
	case 4:
		p := base(code.TagNotify, order)
		p.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3, 6, 1, 2, 1, 1, 1, 0}, Tag: code.TagOpaque, Value: []byte(s)}}
		return p
	case 5: // between neighbours, twice
		p := base(code.TagTestSet, order)
		p.Flags |= code.FlagNonDefaultContext
		p.Context = s
		p.Varbinds = []asn.Varbind{
			{Oid: []uint32{1, 3, 6, 1, 2, 1, 1, 1, 0}, Tag: code.TagOctetString, Value: s},
			{Oid: []uint32{1, 3, 6, 1, 2, 1, 1, 2, 0}, Tag: code.TagCounter64, Value: uint64(0x0102030405060708)},
			{Oid: []uint32{1, 3, 6, 1, 2, 1, 1, 1, 0}, Tag: code.TagOpaque, Value: []byte(s)},
			{Oid: []uint32{2, 3}, Tag: code.TagInteger32, Value: int32(-2)},
		}
		return p
	default: // the context of every other type that may carry one
		tag := []agentx.PduTag{3, 4, 6, 7, 13, 16, 17, 18, 12, 14, 15}[(place-6)*2%11]
		p := base(tag, order)
		p.Flags |= code.FlagNonDefaultContext
		p.Context = s
		return p
	}
}

const nOidPlaces = 11

func placeOid(place int, order bool, id []uint32) agentx.Pdu {
	other := []uint32{1, 3, 6, 1, 2, 1, 1, 3, 0}
	switch place {
	case 0:
		p := base(code.TagOpen, order)
		p.Params = agentx.OpenParams{Timeout: 1, Oid: id, Description: "abcde"}
		return p
	case 1:
		p := base(code.TagRegister, order)
		p.Params = agentx.RegisterParams{Timeout: 1, Priority: 2, RangeSubid: 3, Subtree: id, UpperBound: 0x0A0B0C0D}
		return p
	case 2:
		p := base(code.TagUnregister, order)
		p.Params = agentx.UnregisterParams{Priority: 2, RangeSubid: 3, Subtree: id, UpperBound: 0x0A0B0C0D}
		return p
	case 3:
		p := base(code.TagAddAgentCaps, order)
		p.Params = agentx.AddAgentCapsParams{Oid: id, Description: "abcdef"}
		return p
	case 4:
		p := base(code.TagRemoveAgentCaps, order)
		p.Params = agentx.RemoveAgentCapsParams{Oid: id}
		return p
	case 5:
		p := base(code.TagGet, order)
		p.Ranges = []agentx.SearchRange{{StartOid: id, StartIncluded: 1}, {StartOid: other, EndOid: id}}
		return p
	case 6:
		p := base(code.TagGetNext, order)
		p.Ranges = []agentx.SearchRange{{StartOid: id, EndOid: id, StartIncluded: 0}, {StartOid: other}}
		return p
	case 7:
		p := base(code.TagGetBulk, order)
		p.Ranges = []agentx.SearchRange{{StartOid: other, EndOid: id, StartIncluded: 1}}
		return p
	case 8:
		p := base(code.TagResponse, order)
		p.Varbinds = []asn.Varbind{{Oid: id, Tag: code.TagNull}, {Oid: id, Tag: code.TagGauge32, Value: uint32(5)}}
		return p
	case 9:
		p := base(code.TagNotify, order)
		p.Varbinds = []asn.Varbind{{Oid: other, Tag: code.TagObjectId, Value: id}, {Oid: other, Tag: code.TagTimeTicks, Value: uint32(5)}}
		return p
	default:
		p := base(code.TagIndexAllocate, order)
		p.Varbinds = []asn.Varbind{{Oid: id, Tag: code.TagObjectId, Value: id}}
		return p
	}
}

const nWordPlaces = 17

// placeWord puts a 32-bit word into one of the integer fields.
func placeWord(place int, order bool, v uint32) agentx.Pdu {
	vb := func(tag asn.Tag, val interface{}) agentx.Pdu {
		p := base(code.TagResponse, order)
		p.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3, 6, 1, 4, 1, 9}, Tag: tag, Value: val}}
		return p
	}
	switch place {
	case 0:
		p := base(code.TagPing, order)
		p.SessionId = v
		return p
	case 1:
		p := base(code.TagPing, order)
		p.TransactionId = v
		return p
	case 2:
		p := base(code.TagPing, order)
		p.PacketId = v
		return p
	case 3:
		p := base(code.TagResponse, order)
		p.Params = agentx.ResponseParams{SysUpTime: v, Error: pduerror.Error(v), Index: int16(v >> 3)}
		return p
	case 4:
		p := base(code.TagRegister, order)
		p.Params = agentx.RegisterParams{Timeout: byte(v), Priority: byte(v >> 8), RangeSubid: 1 + byte(v%255), Subtree: []uint32{1, v}, UpperBound: v}
		return p
	case 5:
		p := base(code.TagUnregister, order)
		p.Params = agentx.UnregisterParams{Priority: byte(v >> 8), RangeSubid: 1 + byte(v%255), Subtree: []uint32{1, v}, UpperBound: v}
		return p
	case 6:
		return vb(code.TagInteger32, int32(v))
	case 7:
		return vb(code.TagCounter32, v)
	case 8:
		return vb(code.TagGauge32, v)
	case 9:
		return vb(code.TagTimeTicks, v)
	case 10:
		return vb(code.TagCounter64, uint64(v))
	case 11:
		return vb(code.TagCounter64, uint64(v)<<32|0x01020304)
	case 12:
		return vb(code.TagCounter64, uint64(v)<<32|uint64(^v))
	case 13:
		return vb(code.TagIpAddress, [4]byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
	case 14:
		return vb(code.TagObjectId, []uint32{1, 3, 6, 1, v, v, v})
	case 15:
		p := base(code.TagGetBulk, order)
		p.Params = agentx.GetBulkParams{NonRepeaters: int16(v & 0x7fff), MaxRepeatitions: int16(v >> 16 & 0x7fff)}
		return p
	default:
		p := base(code.TagOpen, order)
		p.Params = agentx.OpenParams{Timeout: byte(v), Oid: []uint32{v}, Description: "d"}
		return p
	}
}

// Families returns the valid-PDU families. weight scales the random ones;
// stride > 1 thins the systematic sweeps (used for the slow debug functions).
func Families(run *mon.Run, random int, stride int) []Fam {
	var fams []Fam
	add := func(name string, n int, mk func(i int, r gen.R) agentx.Pdu) {
		if stride > 1 {
			full := mk
			fams = append(fams, Fam{name, (n + stride - 1) / stride, func(i int, r gen.R) agentx.Pdu {
				j := i*stride + r.IntN(stride)
				if j >= n {
					j = n - 1
				}
				return full(j, r)
			}})
			return
		}
		fams = append(fams, Fam{name, n, mk})
	}

	// every type with every allowed flag set, in four fillings
	type tf struct {
		tag agentx.PduTag
		f   agentx.Flags
	}
	var tfs []tf
	for tag := agentx.PduTag(1); tag <= 18; tag++ {
		for f := 0; f < 256; f++ {
			if agentx.Flags(f)&^ref.AllowedFlags[tag] == 0 {
				tfs = append(tfs, tf{tag, agentx.Flags(f)})
			}
		}
	}
	add("types-flags", len(tfs)*8, func(i int, r gen.R) agentx.Pdu {
		t := tfs[i/8]
		p := gen.PduOf(r, t.tag, gen.SmallOpt)
		if i%8 < 2 {
			p = base(t.tag, false)
		}
		p.Flags = t.f
		p.Context = ""
		if t.f&code.FlagNonDefaultContext != 0 && i%8 != 0 {
			p.Context = gen.Str(r, 40)
		}
		return p
	})

	maxStr, maxList := 1<<17+8, 4200
	if stride > 1 {
		maxStr, maxList = 5000, 300
	}
	sl := strLens(maxStr)
	add("string-lengths", len(sl)*nStrPlaces, func(i int, r gen.R) agentx.Pdu {
		n := sl[i/nStrPlaces]
		return placeStr(i%nStrPlaces, r.IntN(2) == 0, string(gen.Bytes(r, n)))
	})
	add("string-lengths-nz", 300*5*2, func(i int, r gen.R) agentx.Pdu {
		b := make([]byte, i/10)
		for j := range b {
			b[j] = 0xA5
		}
		return placeStr(i/2%5, i%2 == 0, string(b))
	})

	// every OID length, plain and with the internet prefix, at every place
	add("oid-lengths", 129*nOidPlaces*4, func(i int, r gen.R) agentx.Pdu {
		place, n, kind := i%nOidPlaces, i/nOidPlaces%129, i/nOidPlaces/129
		id := make([]uint32, n)
		for j := range id {
			id[j] = gen.U32(r)
		}
		if kind&1 == 1 {
			copy(id, []uint32{1, 3, 6, 1, 4})
		}
		return placeOid(place, kind&2 == 0, id)
	})
	// prefix compression: every fifth sub-id, several lengths
	w := words()
	var fifths []uint32
	for _, v := range w {
		fifths = append(fifths, v)
	}
	for v := uint32(300); v < 1100; v++ {
		fifths = append(fifths, v)
	}
	add("oid-prefix", len(fifths)*nOidPlaces, func(i int, r gen.R) agentx.Pdu {
		id := append([]uint32{1, 3, 6, 1, fifths[i/nOidPlaces]}, gen.OIDn(r, r.IntN(4))...)
		return placeOid(i%nOidPlaces, r.IntN(2) == 0, id)
	})
	near := []uint32{0, 1, 2, 3, 4, 5, 6, 7, 257, 259, 262, 1 << 16, 1<<16 + 1, 1<<24 + 1, 1<<31 + 1, 0xffffffff}
	add("oid-near-prefix", len(near)*4*5*nOidPlaces, func(i int, r gen.R) agentx.Pdu {
		place := i % nOidPlaces
		k := i / nOidPlaces
		n := 4 + k%5
		k /= 5
		id := append([]uint32{1, 3, 6, 1}, []uint32{4, 1, 9, 9}[:n-4]...)
		id[k%4] = near[k/4]
		return placeOid(place, r.IntN(2) == 0, id)
	})
	add("oid-subids", len(w)*8, func(i int, r gen.R) agentx.Pdu {
		id := []uint32{1, 3, 6, 1, 4, 1, 5, 6}
		id[i%8] = w[i/8]
		return placeOid(r.IntN(nOidPlaces), r.IntN(2) == 0, id)
	})
	add("words", len(w)*nWordPlaces*2, func(i int, r gen.R) agentx.Pdu {
		return placeWord(i/2%nWordPlaces, i%2 == 0, w[i/2/nWordPlaces])
	})
	add("int16", 65536/8, func(i int, r gen.R) agentx.Pdu {
		v := uint32(i*8 + r.IntN(8))
		switch i % 3 {
		case 0:
			p := base(code.TagResponse, i%2 == 0)
			p.Params = agentx.ResponseParams{SysUpTime: v, Error: pduerror.Error(v), Index: 3}
			return p
		case 1:
			p := base(code.TagResponse, i%2 == 0)
			p.Params = agentx.ResponseParams{SysUpTime: v, Error: 5, Index: int16(v)}
			return p
		default:
			p := base(code.TagGetBulk, i%2 == 0)
			p.Params = agentx.GetBulkParams{NonRepeaters: int16(v & 0x7fff), MaxRepeatitions: int16(v >> 1)}
			return p
		}
	})
	add("bytes", 256*8*2, func(i int, r gen.R) agentx.Pdu {
		v, order := byte(i/16), i%2 == 0
		switch i / 2 % 8 {
		case 0:
			p := base(code.TagClose, order)
			p.Params = agentx.CloseParams{Reason: agentx.CloseReason(v)}
			return p
		case 1:
			p := base(code.TagOpen, order)
			p.Params = agentx.OpenParams{Timeout: v}
			return p
		case 2:
			p := base(code.TagRegister, order)
			p.Params = agentx.RegisterParams{Timeout: v, Subtree: []uint32{1, 3}}
			return p
		case 3:
			p := base(code.TagRegister, order)
			p.Params = agentx.RegisterParams{Priority: v, Subtree: []uint32{1, 3}}
			return p
		case 4:
			p := base(code.TagRegister, order)
			p.Params = agentx.RegisterParams{RangeSubid: v, Subtree: []uint32{1, 3}}
			if v != 0 {
				p.Params = agentx.RegisterParams{RangeSubid: v, Subtree: []uint32{1, 3}, UpperBound: uint32(v) << 9}
			}
			return p
		case 5:
			p := base(code.TagUnregister, order)
			p.Params = agentx.UnregisterParams{Priority: v, Subtree: []uint32{1, 3}}
			return p
		case 6:
			p := base(code.TagUnregister, order)
			p.Params = agentx.UnregisterParams{RangeSubid: v, Subtree: []uint32{1, 3}}
			if v != 0 {
				p.Params = agentx.UnregisterParams{RangeSubid: v, Subtree: []uint32{1, 3}, UpperBound: uint32(v) << 9}
			}
			return p
		default:
			p := base(code.TagNotify, order)
			p.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3}, Tag: code.TagIpAddress, Value: [4]byte{v, ^v, v ^ 0x55, v + 1}},
				{Tag: code.TagOpaque, Value: []byte{v}}, {Tag: code.TagOctetString, Value: string([]byte{v, v})}}
			return p
		}
	})
	lc := listCounts(maxList)
	lt := []agentx.PduTag{5, 6, 7, 8, 12, 14, 15, 18}
	add("list-counts", len(lc)*len(lt), func(i int, r gen.R) agentx.Pdu {
		n, tag := lc[i/len(lt)], lt[i%len(lt)]
		p := base(tag, r.IntN(2) == 0)
		o := gen.Opt{MaxList: 1, MaxStr: 12}
		for k := 0; k < n; k++ {
			if ref.HasRanges[tag] {
				s := agentx.SearchRange{StartOid: gen.OIDn(r, r.IntN(8)), StartIncluded: byte(r.IntN(2))}
				if r.IntN(2) == 0 {
					s.EndOid = gen.OIDn(r, r.IntN(8))
				}
				p.Ranges = append(p.Ranges, s)
			} else {
				vt := gen.Pick(r, ref.VarbindTags)
				vb := asn.Varbind{Oid: gen.OIDn(r, r.IntN(8)), Tag: vt}
				if vt == code.TagObjectId {
					vb.Value = gen.OIDn(r, r.IntN(8))
				} else {
					vb.Value = gen.Value(r, vt, o)
				}
				p.Varbinds = append(p.Varbinds, vb)
			}
		}
		return p
	})
	// identical neighbours: equal OIDs, equal ranges, equal varbinds in a row
	add("repeats", 18*60, func(i int, r gen.R) agentx.Pdu {
		p := gen.PduOf(r, agentx.PduTag(1+i%18), gen.SmallOpt)
		if n := len(p.Ranges); n > 0 {
			for k := r.IntN(4); k >= 0; k-- {
				p.Ranges = append(p.Ranges, p.Ranges[r.IntN(n)])
			}
		}
		if n := len(p.Varbinds); n > 0 {
			for k := r.IntN(4); k >= 0; k-- {
				vb := p.Varbinds[r.IntN(n)]
				if r.IntN(2) == 0 {
					vb.Tag = gen.Pick(r, ref.VarbindTags)
					vb.Value = gen.Value(r, vb.Tag, gen.SmallOpt)
				}
				p.Varbinds = append(p.Varbinds, vb)
			}
		}
		return p
	})
	// all ordered pairs and triples of varbind types
	nt := len(ref.VarbindTags)
	add("varbind-triples", nt*nt*nt, func(i int, r gen.R) agentx.Pdu {
		p := base([]agentx.PduTag{8, 12, 14, 15, 18}[r.IntN(5)], r.IntN(2) == 0)
		for _, k := range []int{i % nt, i / nt % nt, i / nt / nt} {
			t := ref.VarbindTags[k]
			p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: gen.OID(r), Tag: t, Value: gen.Value(r, t, gen.SmallOpt)})
		}
		return p
	})
	// responses: every error code with every error index around the varbinds
	add("response-index", 40*6*5, func(i int, r gen.R) agentx.Pdu {
		p := base(code.TagResponse, r.IntN(2) == 0)
		e := i % 40
		if e >= 22 {
			e += 256 - 22
		}
		p.Params = agentx.ResponseParams{SysUpTime: gen.U32(r), Error: pduerror.Error(e), Index: int16(i / 40 % 6)}
		for k := i / 240; k > 0; k-- {
			t := gen.Pick(r, ref.VarbindTags[:9])
			p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: gen.OID(r), Tag: t, Value: gen.Value(r, t, gen.SmallOpt)})
		}
		return p
	})
	// well-known names with every type of value, as in requests and notifications
	nk := len(gen.WellKnown)
	add("well-known", nk*nt*3, func(i int, r gen.R) agentx.Pdu {
		p := base([]agentx.PduTag{8, 12, 14, 15, 18}[r.IntN(5)], r.IntN(2) == 0)
		id := append([]uint32(nil), gen.WellKnown[i%nk]...)
		if i/nk/nt > 0 {
			id = append(id, uint32(r.IntN(i/nk/nt)))
		}
		t := ref.VarbindTags[i/nk%nt]
		p.Varbinds = []asn.Varbind{{Oid: id, Tag: t, Value: gen.Value(r, t, gen.SmallOpt)}}
		if r.IntN(3) == 0 {
			p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: gen.Known(r), Tag: code.TagObjectId, Value: gen.Known(r)})
		}
		return p
	})
	add("relations", 6000, func(i int, r gen.R) agentx.Pdu {
		return gen.Relate(r, gen.PduOf(r, agentx.PduTag(1+i%18), gen.SmallOpt))
	})
	add("oid-relations", 4000, func(i int, r gen.R) agentx.Pdu {
		// OIDs that share prefixes with each other within one message
		root := gen.OIDn(r, r.IntN(10))
		rel := func() []uint32 {
			id := append([]uint32(nil), root...)
			switch r.IntN(5) {
			case 0:
			case 1:
				if len(id) > 0 {
					id = id[:r.IntN(len(id))]
				}
			case 2:
				if len(id) > 0 {
					id[len(id)-1]++
				}
			case 3:
				if len(id) > 0 {
					id[r.IntN(len(id))] = gen.U32(r)
				}
			default:
				id = append(id, gen.OIDn(r, r.IntN(3))...)
			}
			return id
		}
		if i%2 == 0 {
			p := base(agentx.PduTag(5+r.IntN(3)), r.IntN(2) == 0)
			for k := r.IntN(6); k >= 0; k-- {
				p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: rel(), EndOid: rel(), StartIncluded: byte(r.IntN(2))})
			}
			return p
		}
		p := base([]agentx.PduTag{8, 12, 14, 15, 18}[r.IntN(5)], r.IntN(2) == 0)
		for k := r.IntN(6); k >= 0; k-- {
			if r.IntN(2) == 0 {
				p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: rel(), Tag: code.TagObjectId, Value: rel()})
			} else {
				t := gen.Pick(r, ref.VarbindTags)
				p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: rel(), Tag: t, Value: gen.Value(r, t, gen.SmallOpt)})
			}
		}
		return p
	})
	fams = append(fams, Fam{"random-small", random, func(i int, r gen.R) agentx.Pdu { return gen.Pdu(r, gen.SmallOpt) }})
	big := gen.DefaultOpt
	if stride > 1 {
		big = gen.Opt{MaxList: 60, MaxStr: 2000}
	}
	fams = append(fams, Fam{"random-large", random / 10, func(i int, r gen.R) agentx.Pdu { return gen.Pdu(r, big) }})
	return fams
}

// sigOf summarises the shape of a PDU for the distinctness count.
func sigOf(p agentx.Pdu, data []byte) []interface{} {
	if len(data) > 4096 {
		return []interface{}{byte(p.Tag), byte(p.Flags), len(data), data[:2048]}
	}
	return []interface{}{data}
}

// hugeLens are string lengths around the powers of two a length field might
// be cut to, beyond what the sweeps cover; hugeCounts the same for lists.
var hugeLens = []int{1 << 24, 1<<24 - 1, 1<<24 + 1, 1 << 20, 1<<22 + 3, 1<<25 + 2}
var hugeCounts = []int{65535, 65536, 65537, 131072, 1 << 18, 1 << 20}

const nHuge = 4*6 + 4*6

// hugePdu is a valid PDU with a string of megabytes or a list of up to a
// million elements.
func hugePdu(i int, r gen.R) agentx.Pdu {
	order := r.IntN(2) == 0
	if i < 24 {
		s := gen.Bytes(r, hugeLens[i/4])
		s[len(s)-1] |= 1 // the last byte differs from padding
		return placeStr([]int{3, 4, 1, 0}[i%4], order, string(s))
	}
	i -= 24
	n := hugeCounts[i/4]
	switch i % 4 {
	case 0, 1:
		p := base(agentx.PduTag(5+i%4), order)
		p.Ranges = make([]agentx.SearchRange, n)
		for k := range p.Ranges {
			p.Ranges[k].StartIncluded = byte(k & 1)
			if k%5 != 0 {
				p.Ranges[k].StartOid = []uint32{1, 3, uint32(k)}
			}
			if k%7 == 0 {
				p.Ranges[k].EndOid = []uint32{uint32(k)}
			}
		}
		return p
	}
	p := base([]agentx.PduTag{code.TagResponse, code.TagTestSet}[i%2], order)
	p.Varbinds = make([]asn.Varbind, n)
	for k := range p.Varbinds {
		v := asn.Varbind{Oid: []uint32{1, 3, uint32(k)}, Tag: code.TagInteger32, Value: int32(k)}
		switch k % 6 {
		case 0:
			v.Tag, v.Value = code.TagNull, nil
		case 1:
			v.Tag, v.Value = code.TagOctetString, string([]byte{byte(k), byte(k >> 8)})
		case 2:
			v.Oid = nil
		}
		p.Varbinds[k] = v
	}
	return p
}

// hugeFamily runs f over huge PDUs, one at a time.
func hugeFamily(run *mon.Run, name string, f func(c *mon.Case, p agentx.Pdu)) {
	run.Serial(name, run.N(nHuge, 2*nHuge), func(c *mon.Case) {
		f(c, hugePdu(c.Index%nHuge, c.R))
		c.Event("huge")
	})
}

// vastPdu is a PDU with 70 to 140 megabytes in one value.
func vastPdu(c *mon.Case) agentx.Pdu {
	p := base(code.TagResponse, c.R.IntN(2) == 0)
	b := make([]byte, (68<<20)<<c.Index+c.R.IntN(4))
	for i := 0; i < len(b); i += 4093 {
		b[i] = byte(i)
	}
	p.Varbinds = []asn.Varbind{{Oid: []uint32{1, 3, 6}, Tag: code.TagOpaque, Value: b}, {Tag: code.TagInteger32, Value: int32(-1)}}
	return p
}
