// Package ref is the reference model of the AgentX wire format, written from
// RFC 2741 (docs/rfc2741.AgentX.txt) and independent of the code under test:
// it only uses the exported data types.
package ref

import (
	"fmt"
	"reflect"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/pduerror"
)

const (
	FInst = 1
	FNew  = 2
	FAny  = 4
	FCtx  = 8
	FNbo  = 16
)

// Kind of parameters.
const (
	KNone = iota
	KOpen
	KClose
	KRegister
	KUnregister
	KBulk
	KAddCaps
	KRemoveCaps
	KResponse
)

type TypeInfo struct {
	Name     string
	Flags    byte
	Kind     int
	Ranges   bool
	Varbinds bool
}

// Types is indexed by PDU type (RFC 2741, 6.1 and 6.2).
var Types = [19]TypeInfo{
	1:  {"Open", FNbo, KOpen, false, false},
	2:  {"Close", FNbo, KClose, false, false},
	3:  {"Register", FInst | FCtx | FNbo, KRegister, false, false},
	4:  {"Unregister", FInst | FCtx | FNbo, KUnregister, false, false},
	5:  {"Get", FCtx | FNbo, KNone, true, false},
	6:  {"GetNext", FCtx | FNbo, KNone, true, false},
	7:  {"GetBulk", FCtx | FNbo, KBulk, true, false},
	8:  {"TestSet", FCtx | FNbo, KNone, false, true},
	9:  {"CommitSet", FNbo, KNone, false, false},
	10: {"UndoSet", FNbo, KNone, false, false},
	11: {"CleanupSet", FNbo, KNone, false, false},
	12: {"Notify", FCtx | FNbo, KNone, false, true},
	13: {"Ping", FCtx | FNbo, KNone, false, false},
	14: {"IndexAllocate", FNew | FAny | FCtx | FNbo, KNone, false, true},
	15: {"IndexDeallocate", FNew | FAny | FCtx | FNbo, KNone, false, true},
	16: {"AddAgentCaps", FCtx | FNbo, KAddCaps, false, false},
	17: {"RemoveAgentCaps", FCtx | FNbo, KRemoveCaps, false, false},
	18: {"Response", FInst | FNew | FAny | FCtx | FNbo, KResponse, false, true},
}

func Known(tag byte) bool { return tag >= 1 && tag <= 18 }

// KindOf returns the kind of a params value, -1 if it is none of them.
func KindOf(p agentx.PayloadParams) int {
	switch p.(type) {
	case agentx.NoParams:
		return KNone
	case agentx.OpenParams:
		return KOpen
	case agentx.CloseParams:
		return KClose
	case agentx.RegisterParams:
		return KRegister
	case agentx.UnregisterParams:
		return KUnregister
	case agentx.GetBulkParams:
		return KBulk
	case agentx.AddAgentCapsParams:
		return KAddCaps
	case agentx.RemoveAgentCapsParams:
		return KRemoveCaps
	case agentx.ResponseParams:
		return KResponse
	}
	return -1
}

// ValueTags are the varbind types of RFC 2741, 5.4.
var ValueTags = []byte{2, 4, 5, 6, 64, 65, 66, 67, 68, 70, 128, 129, 130}

func IsValueTag(t byte) bool {
	for _, v := range ValueTags {
		if v == t {
			return true
		}
	}
	return false
}

// Valueless types carry no value.
func Valueless(t byte) bool { return t == 5 || t == 128 || t == 129 || t == 130 }

// ValueOK: the Go value has the type the tag calls for.
func ValueOK(t byte, v any) bool {
	ok := false
	switch t {
	case 2:
		_, ok = v.(int32)
	case 4:
		_, ok = v.(string)
	case 6:
		_, ok = v.([]uint32)
	case 64:
		_, ok = v.([4]byte)
	case 65, 66, 67:
		_, ok = v.(uint32)
	case 68:
		_, ok = v.([]byte)
	case 70:
		_, ok = v.(uint64)
	case 5, 128, 129, 130:
		ok = true
	}
	return ok
}

// Compress returns the prefix byte and the number of leading subids dropped.
func Compress(o []uint32) (prefix byte, drop int) {
	if len(o) >= 5 && o[0] == 1 && o[1] == 3 && o[2] == 6 && o[3] == 1 && o[4] >= 1 && o[4] <= 255 {
		return byte(o[4]), 5
	}
	return 0, 0
}

func OidOK(o []uint32) bool {
	_, d := Compress(o)
	return len(o)-d <= 128
}

// W writes the wire format.
type W struct {
	B   []byte
	Nbo bool
}

func (w *W) U8(x ...byte) { w.B = append(w.B, x...) }
func (w *W) num(x uint64, n int) {
	for i := 0; i < n; i++ {
		if w.Nbo {
			w.B = append(w.B, byte(x>>(8*(n-1-i))))
		} else {
			w.B = append(w.B, byte(x>>(8*i)))
		}
	}
}
func (w *W) U16(x uint16) { w.num(uint64(x), 2) }
func (w *W) U32(x uint32) { w.num(uint64(x), 4) }
func (w *W) U64(x uint64) { w.num(x, 8) }
func (w *W) Octets(s string) {
	w.U32(uint32(len(s)))
	w.B = append(w.B, s...)
	for n := len(s); n%4 != 0; n++ {
		w.B = append(w.B, 0)
	}
}
func (w *W) Oid(o []uint32, include byte) {
	if len(o) == 0 {
		w.U8(0, 0, 0, 0)
		return
	}
	p, d := Compress(o)
	w.U8(byte(len(o)-d), p, include, 0)
	for _, s := range o[d:] {
		w.U32(s)
	}
}

func (w *W) Value(t byte, v any) {
	switch t {
	case 2:
		w.U32(uint32(v.(int32)))
	case 4:
		w.Octets(v.(string))
	case 6:
		w.Oid(v.([]uint32), 0)
	case 64:
		a := v.([4]byte)
		w.U32(4)
		w.U8(a[0], a[1], a[2], a[3])
	case 65, 66, 67:
		w.U32(v.(uint32))
	case 68:
		w.Octets(string(v.([]byte)))
	case 70:
		w.U64(v.(uint64))
	}
}

// Representable decides whether the PDU can be put on the wire.
func Representable(p agentx.Pdu) bool {
	tag := byte(p.Tag)
	if !Known(tag) {
		return false
	}
	ti := Types[tag]
	if KindOf(p.Params) != ti.Kind || byte(p.Flags)&^ti.Flags != 0 {
		return false
	}
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		if !OidOK(q.Oid) {
			return false
		}
	case agentx.RegisterParams:
		if !OidOK(q.Subtree) {
			return false
		}
	case agentx.UnregisterParams:
		if !OidOK(q.Subtree) {
			return false
		}
	case agentx.GetBulkParams:
		if q.NonRepeaters < 0 || q.MaxRepeatitions < 0 {
			return false
		}
	case agentx.AddAgentCapsParams:
		if !OidOK(q.Oid) {
			return false
		}
	case agentx.RemoveAgentCapsParams:
		if !OidOK(q.Oid) {
			return false
		}
	}
	if ti.Ranges {
		for _, r := range p.Ranges {
			if !OidOK(r.StartOid) || !OidOK(r.EndOid) {
				return false
			}
		}
	}
	if ti.Varbinds {
		for _, vb := range p.Varbinds {
			if !OidOK(vb.Oid) || !ValueOK(byte(vb.Tag), vb.Value) {
				return false
			}
			if o, ok := vb.Value.([]uint32); ok && vb.Tag == 6 && !OidOK(o) {
				return false
			}
		}
	}
	return true
}

// Encode writes a representable PDU.
func Encode(p agentx.Pdu) []byte { return EncodeInto(nil, p) }

// EncodeInto is Encode reusing a buffer.
func EncodeInto(buf []byte, p agentx.Pdu) []byte {
	ti := Types[p.Tag]
	w := &W{B: buf[:0], Nbo: byte(p.Flags)&FNbo != 0}
	w.U8(1, byte(p.Tag), byte(p.Flags), 0)
	w.U32(p.SessionId)
	w.U32(p.TransactionId)
	w.U32(p.PacketId)
	w.U32(0) // length, below
	if byte(p.Flags)&FCtx != 0 {
		w.Octets(p.Context)
	}
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		w.U8(q.Timeout, 0, 0, 0)
		w.Oid(q.Oid, 0)
		w.Octets(q.Description)
	case agentx.CloseParams:
		w.U8(byte(q.Reason), 0, 0, 0)
	case agentx.RegisterParams:
		w.U8(q.Timeout, q.Priority, q.RangeSubid, 0)
		w.Oid(q.Subtree, 0)
		if q.RangeSubid != 0 {
			w.U32(q.UpperBound)
		}
	case agentx.UnregisterParams:
		w.U8(0, q.Priority, q.RangeSubid, 0)
		w.Oid(q.Subtree, 0)
		if q.RangeSubid != 0 {
			w.U32(q.UpperBound)
		}
	case agentx.GetBulkParams:
		w.U16(uint16(q.NonRepeaters))
		w.U16(uint16(q.MaxRepeatitions))
	case agentx.AddAgentCapsParams:
		w.Oid(q.Oid, 0)
		w.Octets(q.Description)
	case agentx.RemoveAgentCapsParams:
		w.Oid(q.Oid, 0)
	case agentx.ResponseParams:
		w.U32(q.SysUpTime)
		w.U16(uint16(q.Error))
		w.U16(uint16(q.Index))
	}
	if ti.Ranges {
		for _, r := range p.Ranges {
			w.Oid(r.StartOid, r.StartIncluded)
			w.Oid(r.EndOid, 0)
		}
	}
	if ti.Varbinds {
		for _, vb := range p.Varbinds {
			w.U16(uint16(vb.Tag))
			w.U8(0, 0)
			w.Oid(vb.Oid, 0)
			w.Value(byte(vb.Tag), vb.Value)
		}
	}
	l := W{Nbo: w.Nbo}
	l.U32(uint32(len(w.B) - 20))
	copy(w.B[16:20], l.B)
	return w.B
}

// R reads the wire format.
type R struct {
	B   []byte
	P   int
	Nbo bool
	Bad bool
}

func (r *R) take(n int) []byte {
	if r.Bad || n < 0 || n > len(r.B)-r.P {
		r.Bad = true
		return nil
	}
	b := r.B[r.P : r.P+n]
	r.P += n
	return b
}
func (r *R) num(n int) (x uint64) {
	b := r.take(n)
	for i := range b {
		if r.Nbo {
			x = x<<8 | uint64(b[i])
		} else {
			x |= uint64(b[i]) << (8 * i)
		}
	}
	return
}
func (r *R) zero(n int) {
	for _, b := range r.take(n) {
		if b != 0 {
			r.Bad = true
		}
	}
}
func (r *R) u8() byte { return byte(r.num(1)) }
func (r *R) octets() string {
	n := r.num(4)
	if n > 0x7fffffff {
		r.Bad = true
		return ""
	}
	s := string(r.take(int(n)))
	r.zero((4 - int(n)%4) % 4)
	return s
}
func (r *R) oid() (o []uint32, include byte) {
	b := r.take(4)
	if r.Bad {
		return
	}
	n, p := int(b[0]), b[1]
	include = b[2]
	if b[3] != 0 || n > 128 {
		r.Bad = true
		return
	}
	if p != 0 {
		o = append(o, 1, 3, 6, 1, uint32(p))
	}
	for i := 0; i < n && !r.Bad; i++ {
		o = append(o, uint32(r.num(4)))
	}
	return
}

func (r *R) value(t byte) any {
	switch t {
	case 2:
		return int32(r.num(4))
	case 4:
		return r.octets()
	case 6:
		o, _ := r.oid()
		return o
	case 64:
		if r.num(4) != 4 {
			r.Bad = true
			return nil
		}
		b := r.take(4)
		if r.Bad {
			return nil
		}
		return [4]byte{b[0], b[1], b[2], b[3]}
	case 65, 66, 67:
		return uint32(r.num(4))
	case 68:
		return []byte(r.octets())
	case 70:
		return r.num(8)
	}
	return nil
}

// DecodeHeader reads a header.
func DecodeHeader(b []byte) (p agentx.Pdu, ok bool) {
	if len(b) != 20 || b[0] != 1 || !Known(b[1]) || b[2]&^Types[b[1]].Flags != 0 || b[3] != 0 {
		return
	}
	r := &R{B: b, P: 4, Nbo: b[2]&FNbo != 0}
	p.Tag, p.Flags = agentx.PduTag(b[1]), agentx.Flags(b[2])
	p.SessionId = uint32(r.num(4))
	p.TransactionId = uint32(r.num(4))
	p.PacketId = uint32(r.num(4))
	p.PayloadSize = int32(r.num(4))
	ok = p.PayloadSize >= 0 && p.PayloadSize%4 == 0
	return
}

// DecodePayload reads the payload of a PDU with valid header fields.
func DecodePayload(h agentx.Pdu, b []byte) (p agentx.Pdu, ok bool) {
	p = agentx.Pdu{Tag: h.Tag, Flags: h.Flags, SessionId: h.SessionId, TransactionId: h.TransactionId,
		PacketId: h.PacketId, PayloadSize: h.PayloadSize}
	if len(b) != int(h.PayloadSize) {
		return
	}
	ti := Types[h.Tag]
	r := &R{B: b, Nbo: byte(h.Flags)&FNbo != 0}
	if byte(h.Flags)&FCtx != 0 {
		p.Context = r.octets()
	}
	switch ti.Kind {
	case KNone:
		p.Params = agentx.NoParams{}
	case KOpen:
		q := agentx.OpenParams{Timeout: r.u8()}
		r.zero(3)
		q.Oid, _ = r.oid()
		q.Description = r.octets()
		p.Params = q
	case KClose:
		q := agentx.CloseParams{Reason: agentx.CloseReason(r.u8())}
		r.zero(3)
		p.Params = q
	case KRegister:
		q := agentx.RegisterParams{Timeout: r.u8(), Priority: r.u8(), RangeSubid: r.u8()}
		r.zero(1)
		q.Subtree, _ = r.oid()
		if q.RangeSubid != 0 {
			q.UpperBound = uint32(r.num(4))
		}
		p.Params = q
	case KUnregister:
		r.zero(1)
		q := agentx.UnregisterParams{Priority: r.u8(), RangeSubid: r.u8()}
		r.zero(1)
		q.Subtree, _ = r.oid()
		if q.RangeSubid != 0 {
			q.UpperBound = uint32(r.num(4))
		}
		p.Params = q
	case KBulk:
		q := agentx.GetBulkParams{NonRepeaters: int16(r.num(2)), MaxRepeatitions: int16(r.num(2))}
		if q.NonRepeaters < 0 || q.MaxRepeatitions < 0 {
			r.Bad = true
		}
		p.Params = q
	case KAddCaps:
		q := agentx.AddAgentCapsParams{}
		q.Oid, _ = r.oid()
		q.Description = r.octets()
		p.Params = q
	case KRemoveCaps:
		q := agentx.RemoveAgentCapsParams{}
		q.Oid, _ = r.oid()
		p.Params = q
	case KResponse:
		q := agentx.ResponseParams{SysUpTime: uint32(r.num(4))}
		q.Error = pduerror.Error(r.num(2))
		q.Index = int16(r.num(2))
		p.Params = q
	}
	if ti.Ranges {
		for !r.Bad && r.P < len(b) {
			var x agentx.SearchRange
			x.StartOid, x.StartIncluded = r.oid()
			x.EndOid, _ = r.oid()
			p.Ranges = append(p.Ranges, x)
		}
	}
	if ti.Varbinds {
		for !r.Bad && r.P < len(b) {
			t := r.num(2)
			if t > 255 || !IsValueTag(byte(t)) {
				r.Bad = true
				break
			}
			r.zero(2)
			var vb asn.Varbind
			vb.Tag = asn.Tag(t)
			vb.Oid, _ = r.oid()
			vb.Value = r.value(byte(t))
			p.Varbinds = append(p.Varbinds, vb)
		}
	}
	ok = !r.Bad && r.P == len(b)
	return
}

// Normal returns what decoding must give for a representable PDU.
func Normal(p agentx.Pdu, size int) agentx.Pdu {
	ti := Types[p.Tag]
	q := p
	q.PayloadSize = int32(size - 20)
	if byte(p.Flags)&FCtx == 0 {
		q.Context = ""
	}
	switch x := p.Params.(type) {
	case agentx.RegisterParams:
		if x.RangeSubid == 0 {
			x.UpperBound = 0
		}
		q.Params = x
	case agentx.UnregisterParams:
		if x.RangeSubid == 0 {
			x.UpperBound = 0
		}
		q.Params = x
	}
	q.Ranges, q.Varbinds = nil, nil
	if ti.Ranges {
		for _, r := range p.Ranges {
			if len(r.StartOid) == 0 {
				r.StartIncluded = 0
			}
			q.Ranges = append(q.Ranges, r)
		}
	}
	if ti.Varbinds {
		for _, vb := range p.Varbinds {
			if Valueless(byte(vb.Tag)) {
				vb.Value = nil
			}
			q.Varbinds = append(q.Varbinds, vb)
		}
	}
	return q
}

func OidEq(a, b []uint32) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func ValueEq(a, b any) bool {
	switch x := a.(type) {
	case []uint32:
		y, ok := b.([]uint32)
		return ok && OidEq(x, y)
	case []byte:
		y, ok := b.([]byte)
		return ok && string(x) == string(y)
	}
	switch b.(type) {
	case []uint32, []byte:
		return false
	}
	return reflect.TypeOf(a) == reflect.TypeOf(b) && (a == nil || !reflect.TypeOf(a).Comparable() || a == b)
}

func ParamsEq(a, b agentx.PayloadParams) bool {
	if KindOf(a) != KindOf(b) {
		return false
	}
	switch x := a.(type) {
	case agentx.OpenParams:
		y := b.(agentx.OpenParams)
		return x.Timeout == y.Timeout && x.Description == y.Description && OidEq(x.Oid, y.Oid)
	case agentx.CloseParams:
		return x == b.(agentx.CloseParams)
	case agentx.RegisterParams:
		y := b.(agentx.RegisterParams)
		return x.Timeout == y.Timeout && x.Priority == y.Priority && x.RangeSubid == y.RangeSubid && x.UpperBound == y.UpperBound && OidEq(x.Subtree, y.Subtree)
	case agentx.UnregisterParams:
		y := b.(agentx.UnregisterParams)
		return x.Priority == y.Priority && x.RangeSubid == y.RangeSubid && x.UpperBound == y.UpperBound && OidEq(x.Subtree, y.Subtree)
	case agentx.GetBulkParams:
		return x == b.(agentx.GetBulkParams)
	case agentx.AddAgentCapsParams:
		y := b.(agentx.AddAgentCapsParams)
		return x.Description == y.Description && OidEq(x.Oid, y.Oid)
	case agentx.RemoveAgentCapsParams:
		return OidEq(x.Oid, b.(agentx.RemoveAgentCapsParams).Oid)
	case agentx.ResponseParams:
		return x == b.(agentx.ResponseParams)
	}
	return true
}

// Diff says how two PDUs differ; "" if they are the same (nil and empty lists
// are the same).
func Diff(a, b agentx.Pdu) string {
	if a.Tag != b.Tag || a.Flags != b.Flags || a.SessionId != b.SessionId || a.TransactionId != b.TransactionId ||
		a.PacketId != b.PacketId || a.PayloadSize != b.PayloadSize {
		return fmt.Sprintf("header fields %s, want %s", hdr(a), hdr(b))
	}
	return DiffPayload(a, b)
}

// DiffPayload compares the payload fields only.
func DiffPayload(a, b agentx.Pdu) string {
	if a.Context != b.Context {
		return fmt.Sprintf("context %q, want %q", a.Context, b.Context)
	}
	if !ParamsEq(a.Params, b.Params) {
		return fmt.Sprintf("params %T%+v, want %T%+v", a.Params, a.Params, b.Params, b.Params)
	}
	if len(a.Ranges) != len(b.Ranges) || len(a.Varbinds) != len(b.Varbinds) {
		return fmt.Sprintf("%d ranges and %d varbinds, want %d and %d", len(a.Ranges), len(a.Varbinds), len(b.Ranges), len(b.Varbinds))
	}
	for i, x := range a.Ranges {
		y := b.Ranges[i]
		if x.StartIncluded != y.StartIncluded || !OidEq(x.StartOid, y.StartOid) || !OidEq(x.EndOid, y.EndOid) {
			return fmt.Sprintf("range %d is %+v, want %+v", i, x, y)
		}
	}
	for i, x := range a.Varbinds {
		y := b.Varbinds[i]
		if x.Tag != y.Tag || !OidEq(x.Oid, y.Oid) || !ValueEq(x.Value, y.Value) {
			return fmt.Sprintf("varbind %d is {%v %d %T %v}, want {%v %d %T %v}", i, x.Oid, x.Tag, x.Value, x.Value, y.Oid, y.Tag, y.Value, y.Value)
		}
	}
	return ""
}

func hdr(p agentx.Pdu) string {
	return fmt.Sprintf("{tag %d flags %#x ids %#x %#x %#x size %d}", byte(p.Tag), byte(p.Flags), p.SessionId, p.TransactionId, p.PacketId, p.PayloadSize)
}

// Show writes a PDU out without using the code under test.
func Show(p agentx.Pdu) string {
	s := hdr(p) + fmt.Sprintf(" context %q params %T%+v", p.Context, p.Params, p.Params)
	for i, r := range p.Ranges {
		if i < 6 {
			s += fmt.Sprintf(" range{%v %v %d}", r.StartOid, r.EndOid, r.StartIncluded)
		}
	}
	for i, v := range p.Varbinds {
		if i < 6 {
			s += fmt.Sprintf(" varbind{%v %d %T(%v)}", v.Oid, byte(v.Tag), v.Value, v.Value)
		}
	}
	if len(s) > 1500 {
		s = s[:1500] + "..."
	}
	return s
}

// Copy makes a deep copy.
func Copy(p agentx.Pdu) agentx.Pdu {
	o := func(x []uint32) []uint32 { return append([]uint32(nil), x...) }
	q := p
	switch x := p.Params.(type) {
	case agentx.OpenParams:
		x.Oid = o(x.Oid)
		q.Params = x
	case agentx.RegisterParams:
		x.Subtree = o(x.Subtree)
		q.Params = x
	case agentx.UnregisterParams:
		x.Subtree = o(x.Subtree)
		q.Params = x
	case agentx.AddAgentCapsParams:
		x.Oid = o(x.Oid)
		q.Params = x
	case agentx.RemoveAgentCapsParams:
		x.Oid = o(x.Oid)
		q.Params = x
	}
	q.Ranges, q.Varbinds = nil, nil
	for _, r := range p.Ranges {
		r.StartOid, r.EndOid = o(r.StartOid), o(r.EndOid)
		q.Ranges = append(q.Ranges, r)
	}
	for _, v := range p.Varbinds {
		v.Oid = o(v.Oid)
		switch y := v.Value.(type) {
		case []uint32:
			v.Value = o(y)
		case []byte:
			v.Value = append([]byte(nil), y...)
		}
		q.Varbinds = append(q.Varbinds, v)
	}
	return q
}
