package ref

import (
	"bytes"
	"fmt"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
)

// Normal returns what a decoder has to deliver for an encoded PDU: fields
// excluded from the wire are empty, the payload size is filled in.
func Normal(pdu agentx.Pdu, payload int) agentx.Pdu {
	pdu.PayloadSize = int32(payload)
	if pdu.Flags&ctx == 0 {
		pdu.Context = ""
	}
	switch p := pdu.Params.(type) {
	case agentx.RegisterParams:
		if p.RangeSubid == 0 {
			p.UpperBound = 0
		}
		pdu.Params = p
	case agentx.UnregisterParams:
		if p.RangeSubid == 0 {
			p.UpperBound = 0
		}
		pdu.Params = p
	}
	if !HasRanges[pdu.Tag] {
		pdu.Ranges = nil
	} else {
		rs := make([]agentx.SearchRange, len(pdu.Ranges))
		for i, r := range pdu.Ranges {
			if len(r.StartOid) == 0 {
				r.StartIncluded = 0
			}
			rs[i] = r
		}
		pdu.Ranges = rs
	}
	if !HasVarbinds[pdu.Tag] {
		pdu.Varbinds = nil
	} else {
		vs := make([]asn.Varbind, len(pdu.Varbinds))
		for i, v := range pdu.Varbinds {
			if Valueless(v.Tag) {
				v.Value = nil
			}
			vs[i] = v
		}
		pdu.Varbinds = vs
	}
	return pdu
}

// EqOID compares OIDs.
func EqOID(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

// EqValue compares varbind values including their Go type (nil and empty
// slices of the same type are equal).
func EqValue(a, b interface{}) bool {
	switch x := a.(type) {
	case nil:
		return b == nil
	case int32:
		y, ok := b.(int32)
		return ok && x == y
	case uint32:
		y, ok := b.(uint32)
		return ok && x == y
	case uint64:
		y, ok := b.(uint64)
		return ok && x == y
	case string:
		y, ok := b.(string)
		return ok && x == y
	case [4]byte:
		y, ok := b.([4]byte)
		return ok && x == y
	case []byte:
		y, ok := b.([]byte)
		return ok && bytes.Equal(x, y)
	case []uint32:
		y, ok := b.([]uint32)
		return ok && EqOID(x, y)
	}
	return sameForeign(a, b)
}

// sameForeign compares values of types that the codec does not know (they only
// occur in PDUs built to be refused) by type and printed contents.
func sameForeign(a, b interface{}) bool {
	return fmt.Sprintf("%T|%#v", a, a) == fmt.Sprintf("%T|%#v", b, b)
}

// DiffHeader compares header fields.
func DiffHeader(want, got agentx.Pdu) string {
	switch {
	case want.Tag != got.Tag:
		return fmt.Sprintf("Tag: want %d, got %d", want.Tag, got.Tag)
	case want.Flags != got.Flags:
		return fmt.Sprintf("Flags: want %#x, got %#x", byte(want.Flags), byte(got.Flags))
	case want.SessionId != got.SessionId:
		return fmt.Sprintf("SessionId: want %#x, got %#x", want.SessionId, got.SessionId)
	case want.TransactionId != got.TransactionId:
		return fmt.Sprintf("TransactionId: want %#x, got %#x", want.TransactionId, got.TransactionId)
	case want.PacketId != got.PacketId:
		return fmt.Sprintf("PacketId: want %#x, got %#x", want.PacketId, got.PacketId)
	case want.PayloadSize != got.PayloadSize:
		return fmt.Sprintf("PayloadSize: want %d, got %d", want.PayloadSize, got.PayloadSize)
	}
	return ""
}

// DiffParams compares parameters.
func DiffParams(want, got agentx.PayloadParams) string {
	eq := false
	switch w := want.(type) {
	case agentx.NoParams:
		_, eq = got.(agentx.NoParams)
	case agentx.OpenParams:
		g, ok := got.(agentx.OpenParams)
		eq = ok && w.Timeout == g.Timeout && EqOID(w.Oid, g.Oid) && w.Description == g.Description
	case agentx.CloseParams:
		g, ok := got.(agentx.CloseParams)
		eq = ok && w == g
	case agentx.RegisterParams:
		g, ok := got.(agentx.RegisterParams)
		eq = ok && w.Timeout == g.Timeout && w.Priority == g.Priority && w.RangeSubid == g.RangeSubid &&
			EqOID(w.Subtree, g.Subtree) && w.UpperBound == g.UpperBound
	case agentx.UnregisterParams:
		g, ok := got.(agentx.UnregisterParams)
		eq = ok && w.Priority == g.Priority && w.RangeSubid == g.RangeSubid &&
			EqOID(w.Subtree, g.Subtree) && w.UpperBound == g.UpperBound
	case agentx.GetBulkParams:
		g, ok := got.(agentx.GetBulkParams)
		eq = ok && w == g
	case agentx.AddAgentCapsParams:
		g, ok := got.(agentx.AddAgentCapsParams)
		eq = ok && EqOID(w.Oid, g.Oid) && w.Description == g.Description
	case agentx.RemoveAgentCapsParams:
		g, ok := got.(agentx.RemoveAgentCapsParams)
		eq = ok && EqOID(w.Oid, g.Oid)
	case agentx.ResponseParams:
		g, ok := got.(agentx.ResponseParams)
		eq = ok && w == g
	case nil:
		eq = got == nil
	default:
		eq = sameForeign(want, got)
	}
	if !eq {
		return fmt.Sprintf("Params: want %T%v, got %T%v", want, want, got, got)
	}
	return ""
}

// DiffRanges compares search range lists.
func DiffRanges(want, got []agentx.SearchRange) string {
	if len(want) != len(got) {
		return fmt.Sprintf("Ranges: want %d, got %d elements", len(want), len(got))
	}
	for i, w := range want {
		if g := got[i]; !EqOID(w.StartOid, g.StartOid) || !EqOID(w.EndOid, g.EndOid) || w.StartIncluded != g.StartIncluded {
			return fmt.Sprintf("Ranges[%d]: want %v, got %v", i, w, g)
		}
	}
	return ""
}

// DiffVarbinds compares varbind lists.
func DiffVarbinds(want, got []asn.Varbind) string {
	if len(want) != len(got) {
		return fmt.Sprintf("Varbinds: want %d, got %d elements", len(want), len(got))
	}
	for i, w := range want {
		if g := got[i]; w.Tag != g.Tag || !EqOID(w.Oid, g.Oid) || !EqValue(w.Value, g.Value) {
			return fmt.Sprintf("Varbinds[%d]: want %v %d %T %v, got %v %d %T %v", i, w.Oid, w.Tag, w.Value, w.Value, g.Oid, g.Tag, g.Value, g.Value)
		}
	}
	return ""
}

// Diff compares two PDUs field by field; nil and empty lists are equal.
func Diff(want, got agentx.Pdu) string {
	if s := DiffHeader(want, got); s != "" {
		return s
	}
	if want.Context != got.Context {
		return fmt.Sprintf("Context: want %.200q, got %.200q", want.Context, got.Context)
	}
	if s := DiffParams(want.Params, got.Params); s != "" {
		return s
	}
	if s := DiffRanges(want.Ranges, got.Ranges); s != "" {
		return s
	}
	return DiffVarbinds(want.Varbinds, got.Varbinds)
}

// Clone deep-copies a PDU with exact-capacity slices.
func Clone(p agentx.Pdu) agentx.Pdu {
	switch x := p.Params.(type) {
	case agentx.OpenParams:
		x.Oid = cloneOID(x.Oid)
		p.Params = x
	case agentx.RegisterParams:
		x.Subtree = cloneOID(x.Subtree)
		p.Params = x
	case agentx.UnregisterParams:
		x.Subtree = cloneOID(x.Subtree)
		p.Params = x
	case agentx.AddAgentCapsParams:
		x.Oid = cloneOID(x.Oid)
		p.Params = x
	case agentx.RemoveAgentCapsParams:
		x.Oid = cloneOID(x.Oid)
		p.Params = x
	}
	p.Context = string(append([]byte(nil), p.Context...))
	if p.Ranges != nil {
		rs := make([]agentx.SearchRange, len(p.Ranges))
		for i, r := range p.Ranges {
			rs[i] = agentx.SearchRange{StartOid: cloneOID(r.StartOid), EndOid: cloneOID(r.EndOid), StartIncluded: r.StartIncluded}
		}
		p.Ranges = rs
	}
	if p.Varbinds != nil {
		vs := make([]asn.Varbind, len(p.Varbinds))
		for i, v := range p.Varbinds {
			vs[i] = CloneVarbind(v)
		}
		p.Varbinds = vs
	}
	return p
}

// CloneVarbind deep-copies a varbind.
func CloneVarbind(v asn.Varbind) asn.Varbind {
	v.Oid = cloneOID(v.Oid)
	switch x := v.Value.(type) {
	case []byte:
		if x != nil {
			v.Value = append([]byte{}, x...)
		}
	case []uint32:
		v.Value = cloneOID(x)
	case string:
		v.Value = string(append([]byte(nil), x...))
	}
	return v
}

func cloneOID(id []uint32) []uint32 {
	if id == nil {
		return nil
	}
	c := make([]uint32, len(id))
	copy(c, id)
	return c
}
