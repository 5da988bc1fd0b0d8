package gen

import (
	"encoding/binary"
	"encoding/json"
	"errors"
	"fmt"
	"io"
	"math/big"
	"math/bits"
	"math/rand/v2"
	"net"
	"os"
	"sort"
	"time"
	"verif/harness/code"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/pduerror"

	"verif/harness/ref"
)

// R is the random source of a case.
type R = *rand.Rand

// Chance is true with probability num/den.
func Chance(r R, num, den int) bool { return r.IntN(den) < num }

// Pick returns a random element.
func Pick[T any](r R, xs []T) T { return xs[r.IntN(len(xs))] }

var bounds32 = func() []uint32 {
	m := map[uint32]bool{}
	for k := 0; k < 32; k++ {
		for d := -1; d <= 1; d++ {
			m[uint32(1)<<k+uint32(d)] = true
		}
	}
	for _, v := range []uint32{0, 1, 2, 3, 4, 5, 6, 127, 128, 129, 254, 255, 256, 257, 511, 512, 32767, 32768, 65535, 65536,
		0x01020304, 0x04030201, 0x80000000, 0x80000001, 0x7fffffff, 0xffffffff, 0xfffffffe, 0x00ff00ff, 0xff00ff00,
		0x0000ffff, 0xffff0000, 0x1f2f3f4f, 0xdeadbeef, 0x00010000, 0x01000000, 0x00000100, 999, 9999} {
		m[v] = true
	}
	var s []uint32
	for v := range m {
		s = append(s, v)
	}
	sort.Slice(s, func(i, j int) bool { return s[i] < s[j] })
	return s
}()

// Bounds32 lists the boundary 32-bit values.
func Bounds32() []uint32 { return bounds32 }

// DictInt returns a source literal, or 0 if there is none.
func DictInt(r R) uint64 {
	if len(TheDict.Ints) == 0 {
		return 0
	}
	return Pick(r, TheDict.Ints)
}

// U32 returns a boundary-biased 32-bit value.
func U32(r R) uint32 {
	switch r.IntN(10) {
	case 0, 1, 2:
		return uint32(r.IntN(8))
	case 3, 4, 5:
		return Pick(r, bounds32)
	case 6:
		return uint32(DictInt(r))
	case 7:
		return uint32(r.IntN(400))
	default:
		return r.Uint32()
	}
}

// U64 returns a boundary-biased 64-bit value.
func U64(r R) uint64 {
	switch r.IntN(8) {
	case 0:
		return uint64(U32(r))
	case 1:
		return uint64(U32(r)) << 32
	case 2:
		return uint64(U32(r))<<32 | uint64(U32(r))
	case 3:
		return uint64(1)<<r.IntN(64) + uint64(r.IntN(3)) - 1
	case 4:
		return DictInt(r)
	case 5:
		return ^uint64(0) - uint64(r.IntN(3))
	default:
		return r.Uint64()
	}
}

// U16 returns a boundary-biased 16-bit value.
func U16(r R) uint16 {
	switch r.IntN(5) {
	case 0:
		return uint16(1)<<r.IntN(16) + uint16(r.IntN(3)) - 1
	case 1:
		return uint16(r.IntN(300))
	case 2:
		return uint16(DictInt(r))
	default:
		return uint16(r.Uint32())
	}
}

// B returns a boundary-biased byte.
func B(r R) byte {
	switch r.IntN(4) {
	case 0:
		return Pick(r, []byte{0, 1, 2, 3, 127, 128, 254, 255})
	case 1:
		return byte(DictInt(r))
	default:
		return byte(r.Uint32())
	}
}

// Len returns a length up to max, biased to small and boundary values.
func Len(r R, max int) int {
	n := 0
	switch r.IntN(12) {
	case 0, 1, 2, 3, 4, 5:
		n = r.IntN(10)
	case 6, 7, 8:
		n = r.IntN(70)
	case 9:
		n = 1<<r.IntN(17) + r.IntN(5) - 2
	case 10:
		n = int(DictInt(r) % (1 << 20))
	default:
		n = r.IntN(max + 1)
	}
	if n < 0 {
		n = 0
	}
	if n > max {
		n = max
	}
	return n
}

// Bytes returns n bytes of one of several content classes.
func Bytes(r R, n int) []byte {
	b := make([]byte, n)
	switch r.IntN(8) {
	case 0: // zeros
	case 1:
		for i := range b {
			b[i] = 0xff
		}
	case 2, 3:
		for i := range b {
			b[i] = byte(' ' + r.IntN(95))
		}
	case 4: // text with trailing or leading blanks and NULs
		for i := range b {
			b[i] = byte('a' + r.IntN(26))
		}
		for i := 0; i < n && i < r.IntN(4); i++ {
			b[n-1-i] = Pick(r, []byte{0, ' ', '\n', '\t', '\r', '.'})
		}
		if n > 0 && Chance(r, 1, 3) {
			b[0] = Pick(r, []byte{0, ' ', '\n', '.', '%'})
		}
	case 5: // multi-byte text, cut anywhere
		s := "äöü€漢字🙂ÿ\u2028\ufeff"
		for i := range b {
			b[i] = s[i%len(s)]
		}
	case 6:
		s := "%s%d%!v%%\n{}|\\\"'!!! Error 00000000  00 01 02 03 \n"
		for i := range b {
			b[i] = s[i%len(s)]
		}
	default:
		for i := range b {
			b[i] = byte(r.Uint32())
		}
	}
	return b
}

// Str returns a string of at most max bytes.
func Str(r R, max int) string {
	if Chance(r, 1, 12) && len(TheDict.Strs) > 0 {
		if s := Pick(r, TheDict.Strs); len(s) <= max {
			return s
		}
	}
	return string(Bytes(r, Len(r, max)))
}

// OIDn returns an OID of exactly n sub-ids.
func OIDn(r R, n int) []uint32 {
	id := make([]uint32, n)
	for i := range id {
		id[i] = U32(r)
	}
	internet := []uint32{1, 3, 6, 1}
	switch r.IntN(5) {
	case 0, 1: // internet prefix
		copy(id, internet)
		if n > 4 {
			id[4] = Pick(r, []uint32{0, 1, 2, 3, 4, 4, 4, 5, 6, 127, 128, 254, 255, 256, 257, 511, 512, 1 << 16, 0x01000004, 0xffffff04, 0xffffffff})
		}
	case 2: // near miss
		copy(id, internet)
		if n > 0 {
			id[r.IntN(min(n, 5))] += uint32(1 + r.IntN(2)*255)
		}
	}
	return id
}

// OIDMax is the SNMP limit on OID length.
const OIDMax = 128

// WellKnown are OIDs that every SNMP program meets.
var WellKnown = [][]uint32{
	{0, 0}, {1}, {1, 3}, {1, 3, 6, 1}, {2, 999}, {1, 3, 6, 1, 2}, {1, 3, 6, 1, 2, 1}, {1, 3, 6, 1, 3}, {1, 3, 6, 1, 4, 1},
	{1, 3, 6, 1, 2, 1, 1}, {1, 3, 6, 1, 2, 1, 1, 1}, {1, 3, 6, 1, 2, 1, 1, 2}, {1, 3, 6, 1, 2, 1, 1, 3}, {1, 3, 6, 1, 2, 1, 1, 4},
	{1, 3, 6, 1, 2, 1, 1, 5}, {1, 3, 6, 1, 2, 1, 1, 6}, {1, 3, 6, 1, 2, 1, 1, 7}, {1, 3, 6, 1, 2, 1, 1, 8}, {1, 3, 6, 1, 2, 1, 1, 9, 1, 2},
	{1, 3, 6, 1, 2, 1, 2}, {1, 3, 6, 1, 2, 1, 2, 1}, {1, 3, 6, 1, 2, 1, 2, 2}, {1, 3, 6, 1, 2, 1, 2, 2, 1, 1}, {1, 3, 6, 1, 2, 1, 2, 2, 1, 2},
	{1, 3, 6, 1, 2, 1, 2, 2, 1, 5}, {1, 3, 6, 1, 2, 1, 2, 2, 1, 6}, {1, 3, 6, 1, 2, 1, 2, 2, 1, 10}, {1, 3, 6, 1, 2, 1, 4, 20, 1, 1},
	{1, 3, 6, 1, 2, 1, 11, 30}, {1, 3, 6, 1, 2, 1, 31, 1, 1, 1, 6}, {1, 3, 6, 1, 6, 3, 1, 1, 4, 1}, {1, 3, 6, 1, 6, 3, 1, 1, 4, 3},
	{1, 3, 6, 1, 6, 3, 1, 1, 5}, {1, 3, 6, 1, 6, 3, 1, 1, 5, 1}, {1, 3, 6, 1, 6, 3, 1, 1, 5, 3}, {1, 3, 6, 1, 6, 3, 18, 1, 3}, {1, 3, 6, 1, 6, 3, 10, 2, 1, 1},
	{1, 3, 6, 1, 4, 1, 9}, {1, 3, 6, 1, 4, 1, 8072, 3, 2, 10}, {1, 3, 6, 1, 4, 1, 2021},
}

// Known returns a well-known OID or one from the source, or one near it.
func Known(r R) []uint32 {
	list := WellKnown
	if len(TheDict.Seqs) > 0 && Chance(r, 1, 2) {
		list = TheDict.Seqs
	}
	id := append([]uint32(nil), Pick(r, list)...)
	switch r.IntN(8) {
	case 0, 1:
		id = append(id, 0)
	case 2:
		id = append(id, U32(r))
	case 3:
		id = append(id, U32(r), U32(r))
	case 4:
		id = id[:len(id)-1]
	}
	return id
}

// OID returns an OID within the SNMP limit.
func OID(r R) []uint32 {
	if Chance(r, 1, 8) {
		return Known(r)
	}
	switch r.IntN(20) {
	case 0:
		return nil
	case 1:
		return []uint32{}
	case 2, 3, 4, 5, 6, 7, 8, 9:
		return OIDn(r, r.IntN(14))
	case 10, 11:
		return OIDn(r, 4+r.IntN(4))
	case 12:
		return OIDn(r, int(DictInt(r)%(OIDMax+1)))
	case 13:
		return OIDn(r, Pick(r, []int{126, 127, 128, 63, 64, 65, 31, 32, 33, 122, 123, 124}))
	case 14:
		return OIDn(r, r.IntN(OIDMax+1))
	default:
		id := append([]uint32{1, 3, 6, 1, Pick(r, []uint32{1, 2, 4, 4, 4, 6, 255})}, OIDn(r, r.IntN(9))...)
		return id
	}
}

// MaxStr bounds generated strings.
const MaxStr = 70000

// Opt tunes PDU generation.
type Opt struct {
	MaxList int // longest list
	MaxStr  int
}

// DefaultOpt is used when nothing special is needed.
var DefaultOpt = Opt{MaxList: 300, MaxStr: 70000}

// SmallOpt keeps PDUs small.
var SmallOpt = Opt{MaxList: 6, MaxStr: 40}

func listLen(r R, max int) int {
	n := 0
	switch r.IntN(10) {
	case 0:
		n = 0
	case 1, 2, 3, 4, 5, 6:
		n = r.IntN(5)
	case 7:
		n = r.IntN(20)
	case 8:
		n = int(DictInt(r) % 1000)
	default:
		n = r.IntN(max + 1)
	}
	return min(n, max)
}

// Value returns a valid value for an encodable tag.
func Value(r R, tag asn.Tag, o Opt) interface{} {
	switch tag {
	case code.TagInteger32:
		return int32(U32(r))
	case code.TagOctetString:
		return Str(r, o.MaxStr)
	case code.TagObjectId:
		return OID(r)
	case code.TagIpAddress:
		return [4]byte{B(r), B(r), B(r), B(r)}
	case code.TagCounter32, code.TagGauge32, code.TagTimeTicks:
		return U32(r)
	case code.TagOpaque:
		switch r.IntN(8) {
		case 0:
			return []byte(nil)
		default:
			return Bytes(r, Len(r, o.MaxStr))
		}
	case code.TagCounter64:
		return U64(r)
	}
	return nil
}

// Varbind returns a valid varbind.
func Varbind(r R, o Opt) asn.Varbind {
	tag := Pick(r, ref.VarbindTags)
	return asn.Varbind{Oid: OID(r), Tag: tag, Value: Value(r, tag, o)}
}

// Range returns a valid search range.
func Range(r R) agentx.SearchRange {
	sr := agentx.SearchRange{StartOid: OID(r), EndOid: OID(r), StartIncluded: byte(r.IntN(2))}
	switch r.IntN(4) {
	case 0:
		sr.EndOid = nil
	case 1:
		if n := len(sr.StartOid); n > 0 {
			sr.EndOid = append([]uint32(nil), sr.StartOid...)
			sr.EndOid[n-1]++
		}
	}
	return sr
}

// Ranges returns a list of search ranges of length n.
func Ranges(r R, n int) []agentx.SearchRange {
	var l []agentx.SearchRange
	for i := 0; i < n; i++ {
		l = append(l, Range(r))
	}
	return l
}

// Varbinds returns a list of varbinds of length n.
func Varbinds(r R, n int, o Opt) []asn.Varbind {
	if n > 20 && o.MaxStr > 300 {
		o.MaxStr = 300
	}
	var l []asn.Varbind
	for i := 0; i < n; i++ {
		l = append(l, Varbind(r, o))
	}
	return l
}

// I16 returns a non-negative int16.
func nonNeg16(r R) int16 { return int16(U16(r) & 0x7fff) }

// Params returns valid parameters for a PDU type.
func Params(r R, tag agentx.PduTag, o Opt) agentx.PayloadParams {
	switch tag {
	case code.TagOpen:
		return agentx.OpenParams{Timeout: B(r), Oid: OID(r), Description: Str(r, o.MaxStr)}
	case code.TagClose:
		return agentx.CloseParams{Reason: agentx.CloseReason(B(r))}
	case code.TagRegister:
		p := agentx.RegisterParams{Timeout: B(r), Priority: B(r), Subtree: OID(r)}
		if Chance(r, 1, 2) {
			p.RangeSubid, p.UpperBound = B(r), U32(r)
		}
		return p
	case code.TagUnregister:
		p := agentx.UnregisterParams{Priority: B(r), Subtree: OID(r)}
		if Chance(r, 1, 2) {
			p.RangeSubid, p.UpperBound = B(r), U32(r)
		}
		return p
	case code.TagGetBulk:
		return agentx.GetBulkParams{NonRepeaters: nonNeg16(r), MaxRepeatitions: nonNeg16(r)}
	case code.TagAddAgentCaps:
		return agentx.AddAgentCapsParams{Oid: OID(r), Description: Str(r, o.MaxStr)}
	case code.TagRemoveAgentCaps:
		return agentx.RemoveAgentCapsParams{Oid: OID(r)}
	case code.TagResponse:
		p := agentx.ResponseParams{SysUpTime: U32(r), Error: pduerror.Error(U16(r)), Index: int16(U16(r))}
		if Chance(r, 1, 4) {
			p.Error, p.Index = 0, 0
		}
		return p
	}
	return agentx.NoParams{}
}

// Flags returns a random allowed flag set for the type.
func Flags(r R, tag agentx.PduTag) agentx.Flags {
	return agentx.Flags(r.Uint32()) & ref.AllowedFlags[tag]
}

// Tag returns a random known PDU type.
func Tag(r R) agentx.PduTag { return agentx.PduTag(1 + r.IntN(18)) }

// Pdu returns a valid PDU whose irrelevant fields are empty.
func Pdu(r R, o Opt) agentx.Pdu { return PduOf(r, Tag(r), o) }

// PduOf returns a valid PDU of the given type.
func PduOf(r R, tag agentx.PduTag, o Opt) agentx.Pdu {
	pdu := agentx.Pdu{
		Tag: tag, Flags: Flags(r, tag),
		SessionId: U32(r), TransactionId: U32(r), PacketId: U32(r),
		Params: Params(r, tag, o),
	}
	if pdu.Flags&code.FlagNonDefaultContext != 0 {
		pdu.Context = Str(r, o.MaxStr)
	}
	if ref.HasRanges[tag] {
		pdu.Ranges = Ranges(r, listLen(r, o.MaxList))
	}
	if ref.HasVarbinds[tag] {
		pdu.Varbinds = Varbinds(r, listLen(r, o.MaxList), o)
	}
	if Chance(r, 1, 3) {
		pdu = Relate(r, pdu)
	}
	return pdu
}

// Relate makes fields of a PDU refer to each other as they do in practice: an
// error index that points at a varbind, a range sub-id inside the subtree, a
// range that ends where it starts, a value that is its own name, equal ids.
func Relate(r R, pdu agentx.Pdu) agentx.Pdu {
	near := func(x uint32) uint32 { return x + uint32(r.IntN(5)) - 2 }
	upper := func(id []uint32, ub uint32) (byte, uint32) {
		if len(id) == 0 {
			return byte(r.IntN(2)), ub
		}
		n := 1 + r.IntN(len(id))
		if Chance(r, 1, 2) {
			ub = near(id[n-1])
		}
		if Chance(r, 1, 8) {
			n = len(id) + 1
		}
		return byte(n), ub
	}
	switch p := pdu.Params.(type) {
	case agentx.ResponseParams:
		p.Error = pduerror.Error(r.IntN(20))
		if Chance(r, 1, 3) {
			p.Error = pduerror.Error(256 + r.IntN(15))
		}
		p.Index = int16(r.IntN(len(pdu.Varbinds) + 2))
		if Chance(r, 1, 4) {
			p.Index = int16(len(pdu.Varbinds))
		}
		pdu.Params = p
	case agentx.GetBulkParams:
		p.NonRepeaters = int16(r.IntN(len(pdu.Ranges) + 2))
		if Chance(r, 1, 2) {
			p.MaxRepeatitions = int16(r.IntN(len(pdu.Ranges) + 3))
		}
		pdu.Params = p
	case agentx.RegisterParams:
		p.RangeSubid, p.UpperBound = upper(p.Subtree, p.UpperBound)
		pdu.Params = p
	case agentx.UnregisterParams:
		p.RangeSubid, p.UpperBound = upper(p.Subtree, p.UpperBound)
		pdu.Params = p
	case agentx.OpenParams:
		if pdu.Flags&code.FlagNonDefaultContext != 0 && Chance(r, 1, 2) {
			p.Description = pdu.Context
		}
		pdu.Params = p
	case agentx.AddAgentCapsParams:
		if pdu.Flags&code.FlagNonDefaultContext != 0 && Chance(r, 1, 2) {
			p.Description = pdu.Context
		}
		pdu.Params = p
	}
	switch r.IntN(8) {
	case 0:
		pdu.TransactionId = pdu.SessionId
	case 1:
		pdu.PacketId = pdu.TransactionId
	case 2:
		pdu.SessionId = 0
	case 3:
		pdu.TransactionId, pdu.PacketId = 0, near(0)
	case 4:
		pdu.SessionId, pdu.TransactionId, pdu.PacketId = uint32(len(pdu.Varbinds)), uint32(len(pdu.Ranges)), uint32(len(pdu.Context))
	}
	for i := range pdu.Ranges {
		x := &pdu.Ranges[i]
		switch r.IntN(8) {
		case 0:
			x.EndOid = append([]uint32(nil), x.StartOid...)
		case 1:
			x.StartOid, x.EndOid = x.EndOid, x.StartOid
		case 2:
			x.EndOid = append(append([]uint32(nil), x.StartOid...), uint32(r.IntN(3)))
		case 3:
			if i > 0 {
				x.StartOid = append([]uint32(nil), pdu.Ranges[i-1].EndOid...)
			}
		case 4:
			if n := len(x.StartOid); n > 0 {
				x.EndOid = append([]uint32(nil), x.StartOid...)
				x.EndOid[n-1] = near(x.EndOid[n-1])
			}
		}
		if len(x.StartOid) > 128 {
			x.StartOid = x.StartOid[:128]
		}
		if len(x.EndOid) > 128 {
			x.EndOid = x.EndOid[:128]
		}
		if len(x.StartOid) == 0 {
			x.StartIncluded = 0
		}
	}
	for i := range pdu.Varbinds {
		vb := &pdu.Varbinds[i]
		switch r.IntN(10) {
		case 0:
			vb.Tag, vb.Value = code.TagObjectId, append([]uint32{}, vb.Oid...)
		case 1:
			vb.Tag, vb.Value = code.TagOctetString, pdu.Context
		case 2:
			if i > 0 {
				vb.Oid = append([]uint32(nil), pdu.Varbinds[i-1].Oid...)
			}
		case 3:
			if n := len(vb.Oid); n > 0 {
				vb.Tag, vb.Value = Pick(r, []asn.Tag{code.TagGauge32, code.TagCounter32, code.TagTimeTicks}), vb.Oid[n-1]
			}
		case 4:
			vb.Tag, vb.Value = code.TagGauge32, pdu.SessionId
		}
	}
	return pdu
}

// bulk extends a list to a boundary length with one repeated element.
func bulk[T any](r R, list []T, x T) []T {
	n := Pick(r, []int{16, 33, 64, 65, 100, 128, 129, 200, 255, 256, 257, 300, 1000, 1025, 4097, int(DictInt(r) % 5000)})
	for len(list) < n {
		list = append(list, x)
	}
	return list
}

// Clutter fills every field that the PDU's type and flags exclude from the
// wire with arbitrary, also ill-formed, contents.
func Clutter(r R, pdu agentx.Pdu) agentx.Pdu {
	pdu.PayloadSize = int32(U32(r))
	if pdu.Flags&code.FlagNonDefaultContext == 0 {
		pdu.Context = Str(r, 50)
		if Chance(r, 1, 8) {
			pdu.Context = Str(r, 70000)
		}
	}
	if !ref.HasRanges[pdu.Tag] {
		pdu.Ranges = Ranges(r, r.IntN(4))
		if Chance(r, 1, 40) {
			pdu.Ranges = bulk(r, pdu.Ranges, agentx.SearchRange{StartOid: []uint32{1, 3}})
		}
		if Chance(r, 1, 3) {
			pdu.Ranges = append(pdu.Ranges, agentx.SearchRange{StartOid: OIDn(r, 300)})
		}
	}
	if !ref.HasVarbinds[pdu.Tag] {
		pdu.Varbinds = Varbinds(r, r.IntN(4), SmallOpt)
		if Chance(r, 1, 40) {
			pdu.Varbinds = bulk(r, pdu.Varbinds, asn.Varbind{Oid: []uint32{1, 3}, Tag: code.TagNull})
		}
		if Chance(r, 1, 3) {
			pdu.Varbinds = append(pdu.Varbinds, asn.Varbind{Tag: asn.Tag(B(r)), Value: 3.5})
		}
	} else if len(pdu.Varbinds) > 0 {
		pdu.Varbinds = append([]asn.Varbind(nil), pdu.Varbinds...)
		for i := range pdu.Varbinds {
			if ref.Valueless(pdu.Varbinds[i].Tag) {
				pdu.Varbinds[i].Value = Pick(r, []interface{}{nil, 1, "x", []uint32{1}, 2.5, int32(7), struct{}{}, []byte{9}, errors.New("e"), stringer(1), &stringerP{}, (*stringerP)(nil), asn.Tag(2), io.EOF})
			}
		}
	}
	switch p := pdu.Params.(type) {
	case agentx.RegisterParams:
		if p.RangeSubid == 0 {
			p.UpperBound = U32(r)
		}
		pdu.Params = p
	case agentx.UnregisterParams:
		if p.RangeSubid == 0 {
			p.UpperBound = U32(r)
		}
		pdu.Params = p
	}
	return pdu
}

type (
	namedI32 int32
	namedStr string
	namedOid []uint32

	namedU32   uint32
	namedU64   uint64
	namedI64   int64
	namedU8    uint8
	namedBytes []byte
	namedArr4  [4]byte
	namedByte4 [4]namedU8
	namedU8s   []namedU8
	namedU32s  []namedU32
	fields4    struct{ A, B, C, D byte }

	foreign struct{ agentx.NoParams }

	stringer  uint32
	stringerP struct{ n int }
)

func (s stringer) String() string   { return "stringer" }
func (s *stringerP) String() string { return "pointer stringer" }
func (s *stringerP) Error() string  { return "pointer error" }
func (s stringer) IsValid() bool    { return false }
func (s stringer) Len() int         { return 3 }
func (s stringer) Bytes() []byte    { return []byte{1} }

// Zoo is a collection of values of many Go types.
func Zoo(r R) []interface{} {
	i := int32(5)
	s := "s"
	return []interface{}{
		nil, int(1), int8(1), int16(2), int32(U32(r)), int64(U64(r)), uint(1), uint8(2), uint16(3), U32(r), U64(r), uintptr(1),
		float32(1), float64(2), complex(1, 2), true, Str(r, 20), []byte(nil), []byte{}, Bytes(r, r.IntN(9)), []uint32(nil), []uint32{}, OID(r),
		[4]byte{1, 2, 3, 4}, [4]uint32{1}, [3]byte{}, [5]byte{}, [16]byte{}, []int32{1}, []string{"a"}, []interface{}{1},
		&i, &s, (*int32)(nil), namedI32(3), namedStr("n"), namedOid{1, 3}, []rune{1, 2}, struct{}{}, foreign{},
		errors.New("an error"), fmt.Errorf("wrapped: %w", io.EOF), pduerror.Error(5), (*os.PathError)(nil), stringer(7), &stringerP{}, (*stringerP)(nil),
		asn.Tag(4), agentx.Flags(1), time.Duration(9), json.Number("12"), json.RawMessage("{}"), net.IPv4(10, 0, 0, 1), net.IP{10, 0, 0, 1}, big.NewInt(5), binary.BigEndian,
		namedU32(U32(r)), namedU64(U64(r)), namedI64(1), namedU8(9), namedBytes{1, 2, 3}, namedArr4{127, 0, 0, 1}, namedByte4{1, 2, 3, 4}, namedU8s{7}, namedU32s{1, 3},
		fields4{1, 2, 3, 4}, &[4]byte{1, 2, 3, 4}, [4]int8{}, [4]rune{}, []byte{1, 2, 3, 4}, []uint64{1, 3}, []uint16{1, 3}, []uint{1, 3}, &[]string{"a"}, [1]string{"s"}, [0]byte{}, [2][2]byte{}, (*string)(nil), (*[]uint32)(nil), interface{}(nil),
		map[string]int{}, func() {}, make(chan int), error(nil), asn.Varbind{}, agentx.NoParams{}, &[]uint32{1}, &[]byte{1}, [2]uint16{1, 2},
	}
}

// AnyPdu returns an arbitrary PDU: mostly a valid one with zero or more defects.
func AnyPdu(r R, o Opt) agentx.Pdu {
	pdu := Pdu(r, o)
	if Chance(r, 1, 2) {
		pdu = Clutter(r, pdu)
	}
	for n := r.IntN(3); n > 0; n-- {
		pdu = Break(r, pdu)
	}
	return pdu
}

// BadOID returns an OID that exceeds the SNMP limit.
func BadOID(r R) []uint32 {
	return OIDn(r, Pick(r, []int{129, 130, 133, 134, 255, 256, 257, 260, 261, 262, 300, 384, 512, 1000, 65536, 65541, 129 + r.IntN(400)}))
}

// Break introduces one random defect or oddity (not necessarily an effective one).
func Break(r R, pdu agentx.Pdu) agentx.Pdu {
	switch r.IntN(9) {
	case 0:
		pdu.Tag = agentx.PduTag(Pick(r, []byte{0, 19, 20, 48, 127, 128, 255, B(r)}))
	case 1:
		pdu.Params = Pick(r, []agentx.PayloadParams{nil, foreign{}, &agentx.NoParams{}, (*agentx.OpenParams)(nil), &agentx.CloseParams{}, &agentx.ResponseParams{}})
	case 2:
		pdu.Params = Params(r, Tag(r), SmallOpt)
	case 3:
		pdu.Flags |= agentx.Flags(1 << r.IntN(8))
	case 4:
		pdu.Varbinds = append(append([]asn.Varbind(nil), pdu.Varbinds...), asn.Varbind{Oid: OID(r), Tag: asn.Tag(B(r)), Value: Pick(r, Zoo(r))})
	case 5:
		tag := Pick(r, ref.VarbindTags)
		pdu.Varbinds = append(append([]asn.Varbind(nil), pdu.Varbinds...), asn.Varbind{Oid: OID(r), Tag: tag, Value: Pick(r, Zoo(r))})
	case 6:
		bad := BadOID(r)
		switch p := pdu.Params.(type) {
		case agentx.OpenParams:
			p.Oid = bad
			pdu.Params = p
		case agentx.RegisterParams:
			p.Subtree = bad
			pdu.Params = p
		case agentx.UnregisterParams:
			p.Subtree = bad
			pdu.Params = p
		case agentx.AddAgentCapsParams:
			p.Oid = bad
			pdu.Params = p
		case agentx.RemoveAgentCapsParams:
			p.Oid = bad
			pdu.Params = p
		default:
			switch r.IntN(4) {
			case 0:
				pdu.Ranges = append(append([]agentx.SearchRange(nil), pdu.Ranges...), agentx.SearchRange{StartOid: bad})
			case 1:
				pdu.Ranges = append(append([]agentx.SearchRange(nil), pdu.Ranges...), agentx.SearchRange{EndOid: bad})
			case 2:
				pdu.Varbinds = append(append([]asn.Varbind(nil), pdu.Varbinds...), asn.Varbind{Oid: bad, Tag: code.TagNull})
			default:
				pdu.Varbinds = append(append([]asn.Varbind(nil), pdu.Varbinds...), asn.Varbind{Tag: code.TagObjectId, Value: bad})
			}
		}
	case 7:
		if p, ok := pdu.Params.(agentx.GetBulkParams); ok {
			if Chance(r, 1, 2) {
				p.NonRepeaters = -1 - p.NonRepeaters
			} else {
				p.MaxRepeatitions = -1 - p.MaxRepeatitions
			}
			pdu.Params = p
		}
	case 8:
		pdu.PayloadSize = int32(U32(r))
	}
	return pdu
}

// Mutate returns a damaged copy of a wire message.
func Mutate(r R, data []byte) []byte {
	b := append([]byte(nil), data...)
	for n := 1 + r.IntN(3); n > 0; n-- {
		switch r.IntN(10) {
		case 0, 1: // byte
			if len(b) > 0 {
				b[r.IntN(len(b))] = B(r)
			}
		case 2: // bit
			if len(b) > 0 {
				b[r.IntN(len(b))] ^= 1 << r.IntN(8)
			}
		case 3: // word, either order
			if len(b) >= 4 {
				i := r.IntN(len(b)/4) * 4
				v := U32(r)
				if Chance(r, 1, 2) {
					b[i], b[i+1], b[i+2], b[i+3] = byte(v>>24), byte(v>>16), byte(v>>8), byte(v)
				} else {
					b[i], b[i+1], b[i+2], b[i+3] = byte(v), byte(v>>8), byte(v>>16), byte(v>>24)
				}
			}
		case 4: // truncate
			if len(b) > 0 {
				b = b[:r.IntN(len(b))]
			}
		case 5: // extend
			b = append(b, Bytes(r, 1+r.IntN(12))...)
		case 6: // drop a chunk
			if len(b) > 20 {
				i := 20 + r.IntN((len(b)-20)/4+1)*4
				j := min(len(b), i+4*(1+r.IntN(3)))
				if i <= j {
					b = append(b[:i:i], b[j:]...)
				}
			}
		case 7: // insert a chunk
			if len(b) >= 20 {
				i := 20 + r.IntN((len(b)-20)/4+1)*4
				if i <= len(b) {
					t := append([]byte(nil), b[i:]...)
					b = append(append(b[:i:i], Bytes(r, 4*(1+r.IntN(3)))...), t...)
				}
			}
		case 8: // duplicate a chunk
			if len(b) >= 28 {
				i := 20 + r.IntN((len(b)-20)/4)*4
				j := min(len(b), i+4*(1+r.IntN(4)))
				t := append([]byte(nil), b[i:]...)
				b = append(append([]byte(nil), b[:j]...), t...)
			}
		case 9: // other type byte
			if len(b) > 1 {
				b[1] = byte(1 + r.IntN(18))
			}
		}
	}
	// usually repair the length field so that the damage lies in the payload
	if len(b) >= 20 && Chance(r, 3, 4) {
		ref.SetLength(b, len(b)-20)
	}
	return b
}

// multiples of the generator polynomials of common CRCs, first bit in the
// least significant bit of the first byte
var crcPatterns = func() (out [][]byte) {
	for _, poly := range []struct {
		n int
		v uint64
	}{{32, 0x04C11DB7}, {32, 0x1EDC6F41}, {32, 0x741B8CD7}, {64, 0x1B}, {64, 0x42F0E1EBA9EA3693}, {16, 0x1021}, {16, 0x8005}} {
		b := make([]byte, poly.n/8+1)
		b[0] = 1
		for k := 1; k <= poly.n; k++ {
			if poly.v>>(poly.n-k)&1 != 0 {
				b[k/8] |= 1 << (k % 8)
			}
		}
		out = append(out, b)
	}
	// the same for CRCs that take the most significant bit first
	for _, b := range out[5:] {
		c := make([]byte, len(b))
		for i := range b {
			c[i] = bits.Reverse8(b[i])
		}
		out = append(out, c)
	}
	return
}()

// LookAlike returns other bytes of the same length that agree with data in
// one of the summaries a program might take for the contents: length and
// ends, sum or xor of the bytes or words, Adler-32, a CRC. The result equals
// data only where data is too short or all the same.
func LookAlike(r R, data []byte) []byte {
	b := append([]byte(nil), data...)
	n := len(b)
	if n == 0 {
		return b
	}
	try := func(kind int) {
		switch kind {
		case 0: // two bytes exchanged
			i, j := r.IntN(n), r.IntN(n)
			b[i], b[j] = b[j], b[i]
		case 1: // two words exchanged
			w := Pick(r, []int{2, 4, 8})
			if n >= 2*w {
				i, j := r.IntN(n/w)*w, r.IntN(n/w)*w
				for k := 0; k < w; k++ {
					b[i+k], b[j+k] = b[j+k], b[i+k]
				}
			}
		case 2: // one more here, one less there
			i, j := r.IntN(n), r.IntN(n)
			if i != j && b[i] < 255 && b[j] > 0 {
				b[i]++
				b[j]--
			}
		case 3: // Adler-32
			if n >= 3 {
				d := 1 + r.IntN((n-1)/2)
				i := r.IntN(n - 2*d)
				switch {
				case b[i] < 255 && b[i+d] > 1 && b[i+2*d] < 255:
					b[i], b[i+d], b[i+2*d] = b[i]+1, b[i+d]-2, b[i+2*d]+1
				case b[i] > 0 && b[i+d] < 254 && b[i+2*d] > 0:
					b[i], b[i+d], b[i+2*d] = b[i]-1, b[i+d]+2, b[i+2*d]-1
				}
			}
		case 4: // CRC
			p := crcPatterns[Pick(r, []int{0, 0, 0, 1, r.IntN(len(crcPatterns))})]
			if n >= len(p) {
				i := r.IntN(n - len(p) + 1)
				for k := range p {
					b[i+k] ^= p[k]
				}
			}
		case 5: // xor
			i, j, m := r.IntN(n), r.IntN(n), byte(1+r.IntN(255))
			if i != j {
				b[i] ^= m
				b[j] ^= m
			}
		case 6: // the ends stay
			if n >= 3 {
				for i := 1; i < n-1; i++ {
					if n < 35 || i >= 16 && i < n-16 {
						b[i] ^= byte(1 + r.IntN(255))
					}
				}
			}
		default: // reversed
			for i, j := 0, n-1; i < j; i, j = i+1, j-1 {
				b[i], b[j] = b[j], b[i]
			}
		}
	}
	kind := r.IntN(8)
	for k := 0; k < 20 && string(b) == string(data); k++ {
		try((kind + k/4) % 8)
	}
	return b
}

// LookAlikeOID is LookAlike for sub-ids.
func LookAlikeOID(r R, id []uint32) []uint32 {
	out := append([]uint32(nil), id...)
	n := len(out)
	if n < 2 {
		return out
	}
	i := r.IntN(n - 1)
	j := i + 1 + r.IntN(n-1-i)
	switch m := uint32(1) << r.IntN(32); r.IntN(4) {
	case 0:
		out[i], out[j] = out[j], out[i]
	case 1: // the sum stays, modulo 2^32
		out[i] += m
		out[j] -= m
	case 2: // the xor stays
		out[i] ^= m
		out[j] ^= m
	default: // the bytes of the wire form, in either order
		b := make([]byte, 4*n)
		for k, x := range out {
			binary.BigEndian.PutUint32(b[4*k:], x)
		}
		b = LookAlike(r, b)
		for k := range out {
			out[k] = binary.BigEndian.Uint32(b[4*k:])
		}
	}
	return out
}
