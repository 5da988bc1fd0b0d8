// Package ref is an executable specification of the AgentX wire format,
// written from RFC 2741 independently of the library. It shares only the
// library's public data types.
package ref

import (
	"encoding/binary"
	"errors"
	"fmt"
	"math"
	"verif/harness/code"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/pduerror"
)

const (
	inst = code.FlagInstanceRegistration
	newi = code.FlagNewIndex
	anyi = code.FlagAnyIndex
	ctx  = code.FlagNonDefaultContext
	nbo  = code.FlagNetworkByteOrder
)

// AllowedFlags lists the flags each PDU type may carry.
var AllowedFlags = map[agentx.PduTag]agentx.Flags{
	1: nbo, 2: nbo, 3: inst | ctx | nbo, 4: inst | ctx | nbo, 5: ctx | nbo, 6: ctx | nbo, 7: ctx | nbo, 8: ctx | nbo,
	9: nbo, 10: nbo, 11: nbo, 12: ctx | nbo, 13: ctx | nbo, 14: newi | anyi | ctx | nbo, 15: newi | anyi | ctx | nbo,
	16: ctx | nbo, 17: ctx | nbo, 18: inst | newi | anyi | ctx | nbo,
}

// HasRanges and HasVarbinds tell which types carry which list.
var HasRanges = map[agentx.PduTag]bool{5: true, 6: true, 7: true}
var HasVarbinds = map[agentx.PduTag]bool{8: true, 12: true, 14: true, 15: true, 18: true}

// VarbindTags lists the 13 varbind types.
var VarbindTags = []asn.Tag{2, 4, 5, 6, 64, 65, 66, 67, 68, 70, 128, 129, 130}

// IsVarbindTag tells whether t is one of the 13 varbind types.
func IsVarbindTag(t asn.Tag) bool {
	for _, x := range VarbindTags {
		if x == t {
			return true
		}
	}
	return false
}

// Valueless tells whether varbinds of this type carry no value.
func Valueless(t asn.Tag) bool { return t == 5 || t == 128 || t == 129 || t == 130 }

// Order returns the byte order selected by the flags.
func Order(f agentx.Flags) binary.ByteOrder {
	if f&nbo != 0 {
		return binary.BigEndian
	}
	return binary.LittleEndian
}

// SetLength patches the payload length of a wire message (at least 20 bytes).
func SetLength(b []byte, n int) { Order(agentx.Flags(b[2])).PutUint32(b[16:], uint32(n)) }

// MaxOID is the SNMP limit on the number of sub-ids.
const MaxOID = 128

var errBad = errors.New("not representable")

type enc struct {
	o binary.ByteOrder
	b []byte
	// plain, if set, is asked for each compressible OID whether to write it
	// without the prefix (legal, but not what the library produces).
	plain func() bool
}

func (e *enc) u16(v uint16)  { var t [2]byte; e.o.PutUint16(t[:], v); e.b = append(e.b, t[:]...) }
func (e *enc) u32(v uint32)  { var t [4]byte; e.o.PutUint32(t[:], v); e.b = append(e.b, t[:]...) }
func (e *enc) u64(v uint64)  { var t [8]byte; e.o.PutUint64(t[:], v); e.b = append(e.b, t[:]...) }
func (e *enc) raw(v ...byte) { e.b = append(e.b, v...) }

func (e *enc) str(s string) {
	e.u32(uint32(len(s)))
	e.b = append(e.b, s...)
	for n := len(s); n%4 != 0; n++ {
		e.b = append(e.b, 0)
	}
}

func (e *enc) oid(id []uint32, include byte) error {
	if len(id) > MaxOID {
		return errBad
	}
	if len(id) == 0 {
		e.raw(0, 0, 0, 0)
		return nil
	}
	prefix := uint32(0)
	if len(id) >= 5 && id[0] == 1 && id[1] == 3 && id[2] == 6 && id[3] == 1 && id[4] >= 1 && id[4] <= 255 &&
		!(e.plain != nil && e.plain()) {
		prefix, id = id[4], id[5:]
	}
	e.raw(byte(len(id)), byte(prefix), include, 0)
	for _, s := range id {
		e.u32(s)
	}
	return nil
}

func (e *enc) params(tag agentx.PduTag, params agentx.PayloadParams) error {
	switch tag {
	case 1:
		p, ok := params.(agentx.OpenParams)
		if !ok {
			return errBad
		}
		e.raw(p.Timeout, 0, 0, 0)
		if err := e.oid(p.Oid, 0); err != nil {
			return err
		}
		e.str(p.Description)
	case 2:
		p, ok := params.(agentx.CloseParams)
		if !ok {
			return errBad
		}
		e.raw(byte(p.Reason), 0, 0, 0)
	case 3:
		p, ok := params.(agentx.RegisterParams)
		if !ok {
			return errBad
		}
		e.raw(p.Timeout, p.Priority, p.RangeSubid, 0)
		if err := e.oid(p.Subtree, 0); err != nil {
			return err
		}
		if p.RangeSubid != 0 {
			e.u32(p.UpperBound)
		}
	case 4:
		p, ok := params.(agentx.UnregisterParams)
		if !ok {
			return errBad
		}
		e.raw(0, p.Priority, p.RangeSubid, 0)
		if err := e.oid(p.Subtree, 0); err != nil {
			return err
		}
		if p.RangeSubid != 0 {
			e.u32(p.UpperBound)
		}
	case 7:
		p, ok := params.(agentx.GetBulkParams)
		if !ok || p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
			return errBad
		}
		e.u16(uint16(p.NonRepeaters))
		e.u16(uint16(p.MaxRepeatitions))
	case 16:
		p, ok := params.(agentx.AddAgentCapsParams)
		if !ok {
			return errBad
		}
		if err := e.oid(p.Oid, 0); err != nil {
			return err
		}
		e.str(p.Description)
	case 17:
		p, ok := params.(agentx.RemoveAgentCapsParams)
		if !ok {
			return errBad
		}
		return e.oid(p.Oid, 0)
	case 18:
		p, ok := params.(agentx.ResponseParams)
		if !ok {
			return errBad
		}
		e.u32(p.SysUpTime)
		e.u16(uint16(p.Error))
		e.u16(uint16(p.Index))
	default:
		if _, ok := params.(agentx.NoParams); !ok {
			return errBad
		}
	}
	return nil
}

func (e *enc) varbind(vb asn.Varbind) error {
	if !IsVarbindTag(vb.Tag) {
		return errBad
	}
	e.u16(uint16(vb.Tag))
	e.raw(0, 0)
	if err := e.oid(vb.Oid, 0); err != nil {
		return err
	}
	switch vb.Tag {
	case code.TagInteger32:
		v, ok := vb.Value.(int32)
		if !ok {
			return errBad
		}
		e.u32(uint32(v))
	case code.TagOctetString:
		v, ok := vb.Value.(string)
		if !ok {
			return errBad
		}
		e.str(v)
	case code.TagObjectId:
		v, ok := vb.Value.([]uint32)
		if !ok {
			return errBad
		}
		return e.oid(v, 0)
	case code.TagIpAddress:
		v, ok := vb.Value.([4]byte)
		if !ok {
			return errBad
		}
		e.u32(4)
		e.raw(v[:]...)
	case code.TagCounter32, code.TagGauge32, code.TagTimeTicks:
		v, ok := vb.Value.(uint32)
		if !ok {
			return errBad
		}
		e.u32(v)
	case code.TagOpaque:
		v, ok := vb.Value.([]byte)
		if !ok {
			return errBad
		}
		e.str(string(v))
	case code.TagCounter64:
		v, ok := vb.Value.(uint64)
		if !ok {
			return errBad
		}
		e.u64(v)
	}
	return nil
}

// Encode returns the canonical wire form, or ok=false if the PDU is not
// representable.
func Encode(pdu agentx.Pdu) (data []byte, ok bool) { return EncodeAlt(pdu, nil) }

// EncodeAlt is Encode with a choice of uncompressed OIDs.
func EncodeAlt(pdu agentx.Pdu, plain func() bool) (data []byte, ok bool) {
	allowed, known := AllowedFlags[pdu.Tag]
	if !known || pdu.Flags&^allowed != 0 || pdu.Params == nil {
		return nil, false
	}
	e := &enc{o: Order(pdu.Flags), plain: plain}
	e.raw(1, byte(pdu.Tag), byte(pdu.Flags), 0)
	e.u32(pdu.SessionId)
	e.u32(pdu.TransactionId)
	e.u32(pdu.PacketId)
	e.u32(0)
	if pdu.Flags&ctx != 0 {
		e.str(pdu.Context)
	}
	if e.params(pdu.Tag, pdu.Params) != nil {
		return nil, false
	}
	if HasRanges[pdu.Tag] {
		for _, r := range pdu.Ranges {
			if e.oid(r.StartOid, r.StartIncluded) != nil || e.oid(r.EndOid, 0) != nil {
				return nil, false
			}
		}
	}
	if HasVarbinds[pdu.Tag] {
		for _, vb := range pdu.Varbinds {
			if e.varbind(vb) != nil {
				return nil, false
			}
		}
	}
	n := len(e.b) - 20
	if n > math.MaxInt32 {
		return nil, false
	}
	e.o.PutUint32(e.b[16:20], uint32(n))
	return e.b, true
}

// Verdict of the reference decoder.
type Verdict int

const (
	Reject Verdict = iota
	Accept
	// Unspecified: well-formed except for something the properties leave
	// open (n_subid or OID length above 128, a stray include value).
	Unspecified
)

func (v Verdict) String() string { return [...]string{"reject", "accept", "unspecified"}[v] }

type dec struct {
	o      binary.ByteOrder
	b      []byte
	unspec bool
}

type reject struct{ why string }

func (d *dec) bad(format string, args ...interface{}) { panic(reject{fmt.Sprintf(format, args...)}) }

func (d *dec) take(n int, what string) []byte {
	if n < 0 || n > len(d.b) {
		d.bad("%s: need %d bytes, have %d", what, n, len(d.b))
	}
	t := d.b[:n]
	d.b = d.b[n:]
	return t
}
func (d *dec) u16(w string) uint16 { return d.o.Uint16(d.take(2, w)) }
func (d *dec) u32(w string) uint32 { return d.o.Uint32(d.take(4, w)) }
func (d *dec) u64(w string) uint64 { return d.o.Uint64(d.take(8, w)) }

func (d *dec) str(w string) []byte {
	n := int32(d.u32(w + " length"))
	if n < 0 {
		d.bad("%s: negative length", w)
	}
	s := d.take(int(n), w)
	for _, c := range d.take((4-int(n)%4)%4, w+" padding") {
		if c != 0 {
			d.bad("%s: non-zero padding", w)
		}
	}
	return s
}

func (d *dec) oid(start bool, w string) (id []uint32, include byte) {
	h := d.take(4, w)
	if h[3] != 0 {
		d.bad("%s: reserved", w)
	}
	include = h[2]
	if include > 1 || include != 0 && (!start || h[0] == 0 && h[1] == 0) || h[0] > MaxOID {
		d.unspec = true
	}
	if h[1] != 0 {
		id = append(id, 1, 3, 6, 1, uint32(h[1]))
	}
	for i := 0; i < int(h[0]); i++ {
		id = append(id, d.u32(w))
	}
	if len(id) > MaxOID {
		d.unspec = true
	}
	return
}

// DecodeHeader decodes a header; why explains a rejection.
func DecodeHeader(data []byte) (pdu agentx.Pdu, v Verdict, why string) {
	if len(data) != 20 {
		return pdu, Reject, "size"
	}
	pdu.Tag, pdu.Flags = agentx.PduTag(data[1]), agentx.Flags(data[2])
	o := Order(pdu.Flags)
	pdu.SessionId, pdu.TransactionId, pdu.PacketId = o.Uint32(data[4:]), o.Uint32(data[8:]), o.Uint32(data[12:])
	pdu.PayloadSize = int32(o.Uint32(data[16:]))
	allowed, known := AllowedFlags[pdu.Tag]
	switch {
	case data[0] != 1:
		why = "version"
	case !known:
		why = "type"
	case pdu.Flags&^allowed != 0:
		why = "flags"
	case data[3] != 0:
		why = "reserved"
	case pdu.PayloadSize < 0:
		why = "negative length"
	case pdu.PayloadSize%4 != 0:
		why = "unaligned length"
	default:
		return pdu, Accept, ""
	}
	return pdu, Reject, why
}

// DecodePayload decodes a payload for a decoded header.
func DecodePayload(h agentx.Pdu, data []byte) (pdu agentx.Pdu, v Verdict, why string) {
	pdu = h
	pdu.Context, pdu.Params, pdu.Ranges, pdu.Varbinds = "", nil, nil, nil
	defer func() {
		if p := recover(); p != nil {
			r, ok := p.(reject)
			if !ok {
				panic(p)
			}
			v, why = Reject, r.why
		}
	}()
	d := &dec{o: Order(h.Flags), b: data}
	if int64(len(data)) != int64(h.PayloadSize) {
		d.bad("payload size mismatch")
	}
	if _, known := AllowedFlags[h.Tag]; !known {
		d.bad("type")
	}
	if h.Flags&ctx != 0 {
		pdu.Context = string(d.str("context"))
	}
	switch h.Tag {
	case 1:
		t := d.take(4, "open")
		if t[1]|t[2]|t[3] != 0 {
			d.bad("open reserved")
		}
		p := agentx.OpenParams{Timeout: t[0]}
		p.Oid, _ = d.oid(false, "open oid")
		p.Description = string(d.str("open description"))
		pdu.Params = p
	case 2:
		t := d.take(4, "close")
		if t[1]|t[2]|t[3] != 0 {
			d.bad("close reserved")
		}
		pdu.Params = agentx.CloseParams{Reason: agentx.CloseReason(t[0])}
	case 3:
		t := d.take(4, "register")
		if t[3] != 0 {
			d.bad("register reserved")
		}
		p := agentx.RegisterParams{Timeout: t[0], Priority: t[1], RangeSubid: t[2]}
		p.Subtree, _ = d.oid(false, "subtree")
		if t[2] != 0 {
			p.UpperBound = d.u32("upper bound")
		}
		pdu.Params = p
	case 4:
		t := d.take(4, "unregister")
		if t[0]|t[3] != 0 {
			d.bad("unregister reserved")
		}
		p := agentx.UnregisterParams{Priority: t[1], RangeSubid: t[2]}
		p.Subtree, _ = d.oid(false, "subtree")
		if t[2] != 0 {
			p.UpperBound = d.u32("upper bound")
		}
		pdu.Params = p
	case 7:
		p := agentx.GetBulkParams{NonRepeaters: int16(d.u16("non repeaters")), MaxRepeatitions: int16(d.u16("max repetitions"))}
		if p.NonRepeaters < 0 || p.MaxRepeatitions < 0 {
			d.bad("negative GetBulk counter")
		}
		pdu.Params = p
	case 16:
		p := agentx.AddAgentCapsParams{}
		p.Oid, _ = d.oid(false, "caps oid")
		p.Description = string(d.str("caps description"))
		pdu.Params = p
	case 17:
		p := agentx.RemoveAgentCapsParams{}
		p.Oid, _ = d.oid(false, "caps oid")
		pdu.Params = p
	case 18:
		p := agentx.ResponseParams{SysUpTime: d.u32("sysUpTime")}
		p.Error = pduerror.Error(d.u16("error"))
		p.Index = int16(d.u16("index"))
		pdu.Params = p
	default:
		pdu.Params = agentx.NoParams{}
	}
	if HasRanges[h.Tag] {
		for len(d.b) > 0 {
			var r agentx.SearchRange
			r.StartOid, r.StartIncluded = d.oid(true, "range start")
			r.EndOid, _ = d.oid(false, "range end")
			pdu.Ranges = append(pdu.Ranges, r)
		}
	}
	if HasVarbinds[h.Tag] {
		for len(d.b) > 0 {
			pdu.Varbinds = append(pdu.Varbinds, d.varbind())
		}
	}
	if len(d.b) != 0 {
		d.bad("%d surplus bytes", len(d.b))
	}
	if d.unspec {
		return pdu, Unspecified, ""
	}
	return pdu, Accept, ""
}

func (d *dec) varbind() (vb asn.Varbind) {
	t := d.u16("varbind type")
	if t > 255 || !IsVarbindTag(asn.Tag(t)) {
		d.bad("varbind type %d", t)
	}
	vb.Tag = asn.Tag(t)
	if x := d.take(2, "varbind reserved"); x[0]|x[1] != 0 {
		d.bad("varbind reserved")
	}
	vb.Oid, _ = d.oid(false, "varbind name")
	switch vb.Tag {
	case code.TagInteger32:
		vb.Value = int32(d.u32("integer"))
	case code.TagOctetString:
		vb.Value = string(d.str("octet string"))
	case code.TagObjectId:
		v, _ := d.oid(false, "oid value")
		vb.Value = v
	case code.TagIpAddress:
		if d.u32("ip length") != 4 {
			d.bad("ip length")
		}
		vb.Value = [4]byte(d.take(4, "ip"))
	case code.TagCounter32, code.TagGauge32, code.TagTimeTicks:
		vb.Value = d.u32("unsigned")
	case code.TagOpaque:
		vb.Value = append([]byte{}, d.str("opaque")...)
	case code.TagCounter64:
		vb.Value = d.u64("counter64")
	}
	return
}
