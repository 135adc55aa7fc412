package main

import (
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/pduerror"

	"verif/mc"
	"verif/ref"
)

// Alphabets. The first element of every small alphabet is the default.
var (
	u32s = []uint32{0x01020304, 0, 1, 0x7fffffff, 0x80000000, 0xffffffff, 0xff, 0xff00}
	u32b []uint32
	u64s = []uint64{0x0102030405060708, 0, 1, 1 << 31, 1 << 32, 1<<63 - 1, 1 << 63, 1<<64 - 1, 0xffffffff00000000}
	u64b []uint64
	i32s = []int32{0x01020304, 0, 1, -1, -0x80000000, 0x7fffffff, -256}
	i32b []int32
	i16s = []int16{0x0102, 0, 1, 255, 256, 32767}
	i16n = []int16{-1, -32768, -256, -2}
	i16b []int16
	u16b []uint16
	u8s  = []byte{5, 0, 1, 127, 128, 255}
	u8b  []byte
	ips  = [][4]byte{{192, 168, 1, 38}, {0, 0, 0, 0}, {255, 255, 255, 255}, {1, 2, 3, 4}}
	ipb  [][4]byte
	strs = []string{"abc", "", "a", "ab", "abcd", "abcde", "\x00", "\xff\xfe\x80\x00\x01\x02\x03"}
	strb []string
	oids = [][]uint32{{1, 3, 6, 1, 4, 1, 999, 1}, nil, {0}, {1}, {1, 3, 6, 1}, {1, 3, 6, 1, 1}, {1, 3, 6, 1, 0},
		{1, 3, 6, 1, 255}, {1, 3, 6, 1, 256}, {1, 3, 6, 1, 256, 7}, {1, 3, 6, 1, 0, 2}, {1, 3, 6, 1, 0xffffffff}, {1, 3, 6, 2, 4, 1},
		{2, 3, 6, 1, 4, 1}, {1, 3, 6, 1, 2, 0xffffffff, 0, 0x80000000, 0x01020304}, {0xffffffff, 0x01020304}, {}}
	oidb [][]uint32
	oidx [][]uint32 // too long to encode
)

func longOid(prefix []uint32, n int) []uint32 {
	o := append([]uint32(nil), prefix...)
	for i := 0; i < n; i++ {
		o = append(o, uint32(i*0x01010101+7))
	}
	return o
}

func init() {
	for k := 0; k < 32; k++ {
		u32b = append(u32b, 1<<k, 1<<k-1, 1<<k+1, ^uint32(1<<k))
		i32b = append(i32b, int32(uint32(1)<<k), int32(uint32(1)<<k-1), int32(^uint32(1<<k)))
	}
	for p := 0; p < 4; p++ {
		for v := 0; v < 256; v++ {
			u32b = append(u32b, 0x01020304&^(0xff<<(8*p))|uint32(v)<<(8*p))
			i32b = append(i32b, int32(0x01020304&^(uint32(0xff)<<(8*p))|uint32(v)<<(8*p)))
			a := [4]byte{1, 2, 3, 4}
			a[p] = byte(v)
			ipb = append(ipb, a)
		}
	}
	for _, x := range u32s {
		for _, y := range u32s {
			u64b = append(u64b, uint64(x)<<32|uint64(y))
		}
	}
	for k := 0; k < 64; k++ {
		u64b = append(u64b, 1<<k, 1<<k-1, ^uint64(1<<k))
	}
	for p := 0; p < 8; p++ {
		for v := 0; v < 256; v++ {
			u64b = append(u64b, 0x0102030405060708&^(0xff<<(8*p))|uint64(v)<<(8*p))
		}
	}
	for v := 0; v < 65536; v++ {
		u16b = append(u16b, uint16(v))
		if v < 32768 {
			i16b = append(i16b, int16(v))
		}
	}
	for v := 0; v < 256; v++ {
		u8b = append(u8b, byte(v))
		strb = append(strb, string([]byte{byte(v)}), string([]byte{'a', byte(v), 'b'}))
	}
	text := strings.Repeat("0123456789abcdefghijklmnopqrstuvwxyzABCDEFGHIJKLMNOPQRSTUVWXYZ-_", 1100)
	for n := 0; n <= 70; n++ {
		strb = append(strb, text[:n])
	}
	for _, n := range []int{126, 127, 128, 129, 130, 254, 255, 256, 257, 258, 511, 512, 513, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 65534, 65535, 65536, 65537} {
		strb = append(strb, text[:n])
	}
	strb = append(strb, "%d%s%!", "50%d of %s %v", "%", "\n", "a\nb", "héé", strings.Repeat("\x00", 9), strings.Repeat("\xff", 10))
	base := []uint32{1, 3, 6, 1}
	for x := uint32(0); x <= 1024; x++ {
		oidb = append(oidb, append(append([]uint32(nil), base...), x), append(append([]uint32(nil), base...), x, 9))
	}
	for k := 0; k < 32; k++ {
		for _, x := range []uint32{1 << k, 1<<k + 1, 1<<k + 255} {
			oidb = append(oidb, append(append([]uint32(nil), base...), x), append(append([]uint32(nil), base...), x, 3, 4))
		}
	}
	for p := 0; p < 4; p++ { // near misses of the internet prefix
		for _, v := range []uint32{0, 1, 2, 3, 4, 5, 6, 7, 255, 256, 257, 259, 262, 1<<24 | 1, 1<<16 | 3, 1 << 31, 0xffffffff} {
			o := []uint32{1, 3, 6, 1, 4, 1, 2}
			o[p] = v
			oidb = append(oidb, o, o[:5], o[:4])
		}
	}
	for n := 0; n <= 128; n++ {
		oidb = append(oidb, longOid(nil, n), longOid([]uint32{1, 3, 6, 1, 4}, n), longOid([]uint32{1, 3, 6, 1, 255}, n))
		if n <= 124 {
			oidb = append(oidb, longOid([]uint32{1, 3, 6, 1}, n))
		}
		if n <= 123 {
			oidb = append(oidb, longOid([]uint32{1, 3, 6, 1, 0}, n), longOid([]uint32{1, 3, 6, 1, 256}, n))
		}
	}
	for _, v := range u32b {
		oidb = append(oidb, []uint32{1, 3, 6, 1, 2, 1, v}, []uint32{v}, []uint32{2, v, 3})
	}
	for _, n := range []int{129, 130, 131, 132, 133, 134, 160, 200, 254, 255, 256, 257, 258, 259, 260, 261, 262, 263, 300, 383, 384, 385, 511, 512, 513, 517, 518, 640, 1024} {
		oidx = append(oidx, longOid([]uint32{7}, n-1), longOid([]uint32{1, 3, 6, 1, 4}, n), longOid([]uint32{1, 3, 6, 1, 0}, n-5), longOid([]uint32{1, 3, 6, 1, 256}, n-5))
	}
	oids = append(oids, longOid([]uint32{7}, 127), longOid([]uint32{1, 3, 6, 1, 4}, 128))
}

type gen struct {
	c    *mc.Ctx
	bad  bool // also produce what cannot be encoded
	tame bool // strings without control characters, '%' or '!'
	lite bool // smaller large alphabets
}

func (g gen) u32() uint32 { return mc.DevBig(g.c, u32s, u32b) }
func (g gen) u8() byte    { return mc.DevBig(g.c, u8s, u8b) }
func (g gen) oid() []uint32 {
	if !g.bad {
		return mc.DevBig(g.c, oids, oidb)
	}
	n := len(oids) + 1
	if g.c.Fresh() && !g.c.NoBig {
		n++
	}
	switch i := g.c.Dev(n); {
	case i < len(oids):
		return oids[i]
	case i == len(oids):
		return oidx[0]
	default:
		g.c.Spend()
		if i := g.c.Pick(len(oidb) + len(oidx)); i < len(oidb) {
			return oidb[i]
		} else {
			return oidx[i-len(oidb)]
		}
	}
}

var (
	tames = []string{"abc", "", "a", "ab", "abcd", "x y", "7", "public"}
	tameb []string
)

func init() {
	for _, s := range strb {
		ok := len(s) <= 70
		for i := 0; i < len(s); i++ {
			ok = ok && s[i] >= ' ' && s[i] < 127 && s[i] != '%' && s[i] != '!'
		}
		if ok {
			tameb = append(tameb, s)
		}
	}
}

func (g gen) str() string {
	if g.tame {
		return mc.DevBig(g.c, tames, tameb)
	}
	return mc.DevBig(g.c, strs, g.strb())
}

func (g gen) u16b() []uint16 {
	if g.lite {
		return u16l
	}
	return u16b
}

func (g gen) i16b() []int16 {
	if g.lite {
		return i16l
	}
	return i16b
}

func (g gen) strb() []string {
	if g.lite {
		return strl
	}
	return strb
}

var (
	u16l []uint16
	i16l []int16
	strl []string
)

func init() {
	for v := 0; v < 256; v++ {
		u16l = append(u16l, uint16(v), uint16(v)<<8|1)
		if v < 128 {
			i16l = append(i16l, int16(v), int16(v)<<8|1)
		}
	}
	for _, s := range strb {
		if len(s) <= 1025 {
			strl = append(strl, s)
		}
	}
}

func (g gen) params(kind int) agentx.PayloadParams {
	c := g.c
	switch kind {
	case ref.KOpen:
		return agentx.OpenParams{Timeout: g.u8(), Oid: g.oid(), Description: g.str()}
	case ref.KClose:
		return agentx.CloseParams{Reason: agentx.CloseReason(g.u8())}
	case ref.KRegister:
		return agentx.RegisterParams{Timeout: g.u8(), Priority: g.u8(), RangeSubid: g.u8(), Subtree: g.oid(), UpperBound: g.u32()}
	case ref.KUnregister:
		return agentx.UnregisterParams{Priority: g.u8(), RangeSubid: g.u8(), Subtree: g.oid(), UpperBound: g.u32()}
	case ref.KBulk:
		i16 := i16s
		if g.bad {
			i16 = append(append([]int16(nil), i16s...), i16n...)
		}
		return agentx.GetBulkParams{NonRepeaters: mc.DevBig(c, i16, g.i16b()), MaxRepeatitions: mc.DevBig(c, i16, g.i16b())}
	case ref.KAddCaps:
		return agentx.AddAgentCapsParams{Oid: g.oid(), Description: g.str()}
	case ref.KRemoveCaps:
		return agentx.RemoveAgentCapsParams{Oid: g.oid()}
	case ref.KResponse:
		return agentx.ResponseParams{SysUpTime: g.u32(), Error: pduerror.Error(mc.DevBig(c, []uint16{0x0102, 0, 5, 256, 268, 0x7fff, 0x8000, 0xffff}, g.u16b())),
			Index: int16(mc.DevBig(c, []uint16{0x0304, 0, 1, 0x7fff, 0x8000, 0xffff, 255, 256}, g.u16b()))}
	}
	return agentx.NoParams{}
}

// value of the given type.
func (g gen) value(t byte) any {
	c := g.c
	switch t {
	case 2:
		return mc.DevBig(c, i32s, i32b)
	case 4:
		return g.str()
	case 6:
		return g.oid()
	case 64:
		return mc.DevBig(c, ips, ipb)
	case 65, 66, 67:
		return g.u32()
	case 68:
		if g.c.Dev(2) == 1 {
			return []byte(nil)
		}
		return []byte(g.str())
	case 70:
		return mc.DevBig(c, u64s, u64b)
	}
	return mc.DevOf(c, []any{nil, int32(5), "x", []uint32{1, 2}, 3.5})
}

var vtOrder = []byte{2, 4, 6, 70, 68, 64, 65, 66, 67, 5, 128, 129, 130}

// vtRot[i] is vtOrder starting at its i'th element.
var vtRot [13][]byte

func init() {
	for i := range vtRot {
		vtRot[i] = append(append([]byte(nil), vtOrder[i:]...), vtOrder[:i]...)
	}
}

func (g gen) varbind(i int) asn.Varbind {
	t := mc.DevOf(g.c, vtRot[i%13])
	return asn.Varbind{Tag: asn.Tag(t), Oid: g.oid(), Value: g.value(t)}
}

var listb []int

func init() {
	for n := 4; n <= 70; n++ {
		listb = append(listb, n)
	}
	listb = append(listb, 100, 127, 128, 129, 255, 256, 257, 300)
}

func (g gen) listLen() int { return mc.DevBig(g.c, []int{2, 0, 1, 3}, listb) }

// sizeb are payload sizes that a PDU holds before it is encoded.
var sizeb = func() (s []int32) {
	for k := 0; k <= 24; k++ {
		s = append(s, 1<<k, 1<<k-4, 1<<k+4, -1<<k)
	}
	for k := int32(4); k <= 128; k += 4 {
		s = append(s, k)
	}
	return append(s, -1<<31)
}()

// pdu generates a PDU of the given type and flags.
func (g gen) pdu(tag, flags byte) agentx.Pdu {
	ti := ref.Types[tag]
	p := agentx.Pdu{Tag: agentx.PduTag(tag), Flags: agentx.Flags(flags)}
	p.SessionId, p.TransactionId, p.PacketId = g.u32(), g.u32(), g.u32()
	p.PayloadSize = mc.DevBig(g.c, []int32{0, -1, 12348}, sizeb) // must be ignored
	if flags&ref.FCtx != 0 {
		p.Context = g.str()
	} else {
		p.Context = mc.DevOf(g.c, []string{"", "ignored"})
	}
	p.Params = g.params(ti.Kind)
	if ti.Ranges {
		for i, n := 0, g.listLen(); i < n; i++ {
			p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: g.oid(), EndOid: g.oid(),
				StartIncluded: mc.DevBig(g.c, []byte{byte(i+1) & 1, 0, 1, 2, 255}, u8b)})
		}
	} else if g.c.Dev(2) == 1 {
		p.Ranges = []agentx.SearchRange{{StartOid: []uint32{9, 9}, EndOid: longOid(nil, 200)}}
	}
	if ti.Varbinds {
		for i, n := 0, g.listLen(); i < n; i++ {
			p.Varbinds = append(p.Varbinds, g.varbind(i))
		}
	} else if g.c.Dev(2) == 1 {
		p.Varbinds = []asn.Varbind{{Tag: 99, Oid: []uint32{9}, Value: 1}}
	}
	return p
}

type tf struct{ tag, flags byte }

// tagFlags lists every PDU type with every allowed flags byte.
var tagFlags []tf

// tagFlags1 lists every PDU type with few flags.
var tagFlags1 []tf

func init() {
	for t := byte(1); t <= 18; t++ {
		for f := 0; f < 32; f++ {
			if byte(f)&^ref.Types[t].Flags == 0 {
				tagFlags = append(tagFlags, tf{t, byte(f)})
			}
		}
		full := ref.Types[t].Flags
		tagFlags1 = append(tagFlags1, tf{t, full & ref.FNbo}, tf{t, 0})
		if full&ref.FCtx != 0 {
			tagFlags1 = append(tagFlags1, tf{t, ref.FCtx}, tf{t, ref.FCtx | ref.FNbo})
		}
	}
}

func pduHash(p agentx.Pdu, h mc.Hash) mc.Hash { return h.Str(ref.Show(p)) }

// values of every Go type that matters, valid for some tag or for none.
func allValues() []any {
	i := 7
	return []any{nil, int32(5), int32(-1), int(5), int64(5), uint32(5), uint32(0xffffffff), uint64(5), uint64(1 << 63), uint(5),
		uint16(5), int16(5), byte(5), int8(5), true, 3.5, float32(1.5), "", "abc", []byte(nil), []byte{}, []byte{1, 2, 3}, []uint32(nil), []uint32{}, []uint32{1, 3, 6, 1, 2},
		[4]byte{1, 2, 3, 4}, [5]byte{1}, [16]byte{}, []int{1}, []uint64{1}, []string{"a"}, &i, asn.Tag(2), agentx.Flags(3), pduerror.Error(1), struct{}{}, map[string]int{}, []any{1},
		(*int)(nil), error(nil), func() {}, namedInt(3), namedStr("x"), namedOid{1, 2}, namedU32(3), [3]byte{1, 2, 3}, []int32{1}, rune('a'), complex(1, 2)}
}

type namedInt int32
type namedU32 uint32
type namedStr string
type namedOid []uint32

func vb(t byte, o []uint32, v any) asn.Varbind { return asn.Varbind{Tag: asn.Tag(t), Oid: o, Value: v} }
