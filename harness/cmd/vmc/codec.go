package main

import (
	"bytes"
	"fmt"
	"math"
	"runtime/debug"
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/pduerror"

	"verif/mc"
	"verif/ref"
)

func init() {
	checks["C01"] = func(r *mc.Runner) { encodeSpaces(r, bound(r, 3, 4), checkBytes) }
	checks["C02"] = func(r *mc.Runner) { encodeSpaces(r, bound(r, 3, 4), checkRoundTrip) }
	checks["C03"] = checkC03
	checks["C04"] = checkC04
	checks["C05"] = checkC05
}

func bound(r *mc.Runner, quick, thorough int) int {
	if r.Thorough() {
		return thorough
	}
	return quick
}

func hexs(b []byte) string {
	if len(b) > 400 {
		return fmt.Sprintf("%x... (%d bytes)", b[:400], len(b))
	}
	return fmt.Sprintf("%x", b)
}

// few values per type, for the product explorations.
func fewValues(t byte) []any {
	switch t {
	case 2:
		return []any{int32(-2), int32(0x01020304)}
	case 4:
		return []any{"abc", "", "defgh"}
	case 6:
		return []any{[]uint32{1, 3, 6, 1, 2, 1}, []uint32(nil), []uint32{5, 6}}
	case 64:
		return []any{[4]byte{10, 0, 0, 1}}
	case 65, 66, 67:
		return []any{uint32(0x80000001)}
	case 68:
		return []any{[]byte{1, 2, 3, 4, 5}, []byte(nil)}
	case 70:
		return []any{uint64(0x8001020304050607)}
	}
	return []any{nil}
}

var vbTags = []byte{8, 12, 14, 15, 18}
var rangeTags = []byte{5, 6, 7}

func defaultParams(kind int) agentx.PayloadParams {
	return gen{c: &mc.Ctx{}}.params(kind)
}

// encodeSpaces enumerates PDUs that can be encoded.
func encodeSpaces(r *mc.Runner, dev int, check func(p agentx.Pdu, w *mc.Worker) string) {
	r.Explore("fields", len(tagFlags), dev, func(sh int, c *mc.Ctx) string {
		x := tagFlags[sh]
		p := gen{c: c}.pdu(x.tag, x.flags)
		if c.Fresh() {
			r.Sample(ref.Show(p))
		}
		return check(p, c.W)
	})
	big := bigPdus(1 << 25)
	r.Explore("large PDUs", len(big), 0, func(sh int, c *mc.Ctx) string {
		if m := check(big[sh].mk(), c.W); m != "" {
			return big[sh].name + ": " + m
		}
		return ""
	})
	// every sequence of up to 3 varbinds of every type
	n := 3
	r.Explore("varbind lists", len(vbTags)*4, 0, func(sh int, c *mc.Ctx) string {
		tag, flags := vbTags[sh/4], byte(sh%2*ref.FNbo|sh/2%2*ref.FCtx)
		p := agentx.Pdu{Tag: agentx.PduTag(tag), Flags: agentx.Flags(flags), SessionId: 7, PacketId: 9, Context: "cx",
			Params: defaultParams(ref.Types[tag].Kind)}
		for i, k := 0, c.Pick(n+1); i < k; i++ {
			t := mc.PickOf(c, vtOrder)
			p.Varbinds = append(p.Varbinds, asn.Varbind{Tag: asn.Tag(t), Oid: mc.PickOf(c, [][]uint32{{1, 3, 6, 1, 4, 1, 5}, nil}), Value: mc.PickOf(c, fewValues(t))})
		}
		return check(p, c.W)
	})
	ro := [][]uint32{{1, 3, 6, 1, 4, 1}, nil, {2, 5}, {1, 3, 6, 1, 0}, {1, 3, 6, 1, 9}}
	r.Explore("range lists", len(rangeTags)*4, 0, func(sh int, c *mc.Ctx) string {
		tag, flags := rangeTags[sh/4], byte(sh%2*ref.FNbo|sh/2%2*ref.FCtx)
		p := agentx.Pdu{Tag: agentx.PduTag(tag), Flags: agentx.Flags(flags), TransactionId: 3, Context: "cxy",
			Params: defaultParams(ref.Types[tag].Kind)}
		for i, k := 0, c.Pick(bound(r, 3, 4)); i < k; i++ {
			p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: mc.PickOf(c, ro), EndOid: mc.PickOf(c, ro), StartIncluded: byte(c.Pick(2))})
		}
		return check(p, c.W)
	})
	// every pair of string lengths: context and description, and two values
	r.Explore("string lengths", 2, 0, func(sh int, c *mc.Ctx) string {
		text := "0123456789abcdefghijklmnopqrstuvwxyz"
		a, b := text[:c.Pick(20)], text[:c.Pick(20)]
		flags := agentx.Flags(ref.FCtx | sh*ref.FNbo)
		if c.Pick(2) == 0 {
			return check(agentx.Pdu{Tag: 16, Flags: flags, Context: a, Params: agentx.AddAgentCapsParams{Oid: []uint32{1, 3}, Description: b}}, c.W)
		}
		return check(agentx.Pdu{Tag: 18, Flags: flags, Context: b, Params: agentx.ResponseParams{Error: pduerror.Error(7)},
			Varbinds: []asn.Varbind{{Tag: 4, Oid: []uint32{1}, Value: a}, {Tag: 68, Oid: []uint32{2}, Value: []byte(b)}, {Tag: 2, Oid: []uint32{3}, Value: int32(1)}}}, c.W)
	})
	// every string of two octets, as text and as Opaque; every IpAddress over
	// an alphabet of octets; every half of the integers
	oct := []byte{0, 1, 2, 10, 127, 128, 192, 254, 255}
	r.Explore("octets", 256, 0, func(sh int, c *mc.Ctx) string {
		for v := 0; v < 256; v++ {
			x, y := byte(sh), byte(v)
			f := agentx.Flags(int(x^y) & 1 * ref.FNbo)
			half := uint32(x)<<8 | uint32(y)
			p := agentx.Pdu{Tag: 12, Flags: f | ref.FCtx, Context: string([]byte{y, x}), Params: agentx.NoParams{}, Varbinds: []asn.Varbind{
				vb(4, []uint32{1, half}, string([]byte{x, y})), vb(68, []uint32{half, 1}, []byte{x, 7, y}), vb(4, []uint32{1, 3, 6, 1, 4, half << 16}, string([]byte{7, 7, 7, x, y, x})),
				vb(2, nil, int32(half<<16|5)), vb(2, nil, int32(half|0x00050000)), vb(65, nil, half), vb(66, nil, half<<16), vb(67, nil, ^half),
				vb(70, nil, uint64(half)<<48|3), vb(70, nil, uint64(half)<<32|3), vb(70, nil, uint64(half)<<16|3), vb(70, nil, uint64(half)|3<<32)}}
			if m := check(p, c.W); m != "" {
				return m
			}
		}
		if sh < 81 {
			p := agentx.Pdu{Tag: 18, Flags: agentx.Flags(sh & 1 * ref.FNbo), Params: agentx.ResponseParams{}}
			for i := range oct {
				for j := range oct {
					p.Varbinds = append(p.Varbinds, vb(64, []uint32{1}, [4]byte{oct[sh/9], oct[sh%9], oct[i], oct[j]}))
				}
			}
			return check(p, c.W)
		}
		return ""
	})
	// every pair of parameter bytes
	r.Explore("parameter bytes", 256, 0, func(sh int, c *mc.Ctx) string {
		for b := 0; b < 256; b++ {
			for k := 0; k < 6; k++ {
				x, y := byte(sh), byte(b)
				var p agentx.Pdu
				switch k {
				case 0:
					p = agentx.Pdu{Tag: 3, Flags: 16, Params: agentx.RegisterParams{Timeout: x, Priority: y, RangeSubid: 3, Subtree: []uint32{1, 3, 6, 1, 2}, UpperBound: 77}}
				case 1:
					p = agentx.Pdu{Tag: 3, Params: agentx.RegisterParams{Timeout: 9, Priority: x, RangeSubid: y, Subtree: []uint32{1, 3, 6, 1, 2}, UpperBound: 77}}
				case 2:
					p = agentx.Pdu{Tag: 4, Params: agentx.UnregisterParams{Priority: x, RangeSubid: y, Subtree: []uint32{1, 3, 6, 1, 2}, UpperBound: 77}}
				case 3:
					p = agentx.Pdu{Tag: 1, Params: agentx.OpenParams{Timeout: x, Oid: []uint32{1, 3, 6, 1, uint32(y)}}}
				case 4:
					p = agentx.Pdu{Tag: 2, Flags: agentx.Flags(y & 16), SessionId: uint32(y) << 8, Params: agentx.CloseParams{Reason: agentx.CloseReason(x)}}
				case 5:
					p = agentx.Pdu{Tag: 18, Flags: agentx.Flags(y & 16), Params: agentx.ResponseParams{SysUpTime: 1, Error: pduerror.Error(x) | pduerror.Error(y)<<8, Index: int16(y) | int16(x)<<8}}
				}
				if m := check(p, c.W); m != "" {
					return m
				}
			}
		}
		return ""
	})
}

func checkBytes(p agentx.Pdu, w *mc.Worker) string {
	got, ok := agentx.EncodePdu(p)
	if !ok {
		w.Outcome("refused")
		return ""
	}
	w.Step(1)
	want := ref.Encode(p)
	w.State(mc.NewHash().Bytes(want).Sum())
	if !bytes.Equal(got, want) {
		return fmt.Sprintf("EncodePdu of %s\n gives %s\n  want %s", ref.Show(p), hexs(got), hexs(want))
	}
	w.Outcome(ref.Types[p.Tag].Name)
	return ""
}

func checkRoundTrip(p agentx.Pdu, w *mc.Worker) string {
	data, ok := agentx.EncodePdu(p)
	if !ok {
		w.Outcome("refused")
		return ""
	}
	w.Step(2)
	w.State(mc.NewHash().Bytes(data).Sum())
	if len(data) < agentx.PduHeaderSize {
		return fmt.Sprintf("EncodePdu of %s gives %d bytes", ref.Show(p), len(data))
	}
	q, ok := agentx.DecodePduHeader(data[:agentx.PduHeaderSize])
	if !ok {
		return fmt.Sprintf("header of encoded %s\n is not decoded: %s", ref.Show(p), hexs(data))
	}
	if int(q.PayloadSize) != len(data)-agentx.PduHeaderSize {
		return fmt.Sprintf("payload size %d announced for %d bytes of %s", q.PayloadSize, len(data)-20, ref.Show(p))
	}
	if !agentx.DecodePduPayload(&q, data[agentx.PduHeaderSize:]) {
		return fmt.Sprintf("payload of encoded %s\n is not decoded: %s", ref.Show(p), hexs(data))
	}
	if d := ref.Diff(q, ref.Normal(p, len(data))); d != "" {
		return fmt.Sprintf("encoding and decoding %s\n gives %s", ref.Show(p), d)
	}
	w.Outcome(ref.Types[p.Tag].Name)
	return ""
}

// --- C03

func paramKinds() []agentx.PayloadParams {
	o := []uint32{1, 3}
	return []agentx.PayloadParams{nil, agentx.NoParams{}, agentx.OpenParams{Oid: o}, agentx.CloseParams{}, agentx.RegisterParams{Subtree: o}, agentx.UnregisterParams{Subtree: o},
		agentx.GetBulkParams{}, agentx.AddAgentCapsParams{Oid: o}, agentx.RemoveAgentCapsParams{Oid: o}, agentx.ResponseParams{},
		&agentx.NoParams{}, &agentx.OpenParams{}, (*agentx.OpenParams)(nil), &agentx.CloseParams{}, &agentx.ResponseParams{}, (*agentx.NoParams)(nil)}
}

func checkVerdict(p agentx.Pdu, w *mc.Worker) string {
	want := ref.Representable(p)
	data, ok := agentx.EncodePdu(p)
	w.Step(1)
	if ok != want {
		return fmt.Sprintf("EncodePdu reports ok=%v, want %v, for %s", ok, want, ref.Show(p))
	}
	if ok {
		w.Outcome("accepted")
		if len(data) < 20 {
			return fmt.Sprintf("EncodePdu reports success with %d bytes for %s", len(data), ref.Show(p))
		}
	} else {
		w.Outcome("refused")
	}
	return ""
}

func checkC03(r *mc.Runner) {
	kinds := paramKinds()
	r.Explore("types x params x flags", 256, 0, func(sh int, c *mc.Ctx) string {
		for _, k := range kinds {
			for f := 0; f < 256; f++ {
				p := agentx.Pdu{Tag: agentx.PduTag(sh), Flags: agentx.Flags(f), Params: k, Context: "c"}
				c.W.State(mc.NewHash().U(uint64(sh)<<8 | uint64(f)).Str(fmt.Sprintf("%T", k)).Sum())
				if m := checkVerdict(p, c.W); m != "" {
					return m
				}
			}
		}
		return ""
	})
	big := bigPdus(1 << 25)
	r.Explore("large PDUs", len(big), 0, func(sh int, c *mc.Ctx) string {
		p := big[sh].mk()
		if m := checkVerdict(p, c.W); m != "" {
			return big[sh].name + ": " + m
		}
		// one bad element, first, in the middle or last
		for _, i := range []int{0, len(p.Varbinds) / 2, len(p.Varbinds) - 1} {
			if i >= 0 && i < len(p.Varbinds) && big[sh].weight < 1<<20 {
				old := p.Varbinds[i]
				p.Varbinds[i] = vb(2, []uint32{1}, "no integer")
				if m := checkVerdict(p, c.W); m != "" {
					return big[sh].name + ": " + m
				}
				p.Varbinds[i] = vb(5, longOid([]uint32{7}, 200), nil)
				if m := checkVerdict(p, c.W); m != "" {
					return big[sh].name + ": " + m
				}
				p.Varbinds[i] = old
			}
			if i := (i + 1) * len(p.Ranges) / (len(p.Varbinds) + 2); i >= 0 && i < len(p.Ranges) {
				old := p.Ranges[i]
				p.Ranges[i].EndOid = longOid([]uint32{7}, 200)
				if m := checkVerdict(p, c.W); m != "" {
					return big[sh].name + ": " + m
				}
				p.Ranges[i] = old
			}
		}
		return ""
	})
	// payload sizes up to and beyond what the length field can hold; the
	// varbinds share one string, each takes 1 MiB
	mib := strings.Repeat("x", 1<<20-16)
	sizes := []int{64, 256, 1024, 2048, 2049, 3000, 4095, 4096, 4097, 6144}
	if r.Thorough() {
		sizes = append(sizes, 2047)
	}
	r.Explore1("payload size limit", len(sizes)*2, 0, func(sh int, c *mc.Ctx) string {
		n := sizes[sh/2]
		p := agentx.Pdu{Tag: 8, Flags: agentx.Flags(sh % 2 * ref.FNbo), Params: agentx.NoParams{}}
		for i := 0; i < n; i++ {
			p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: []uint32{uint32(i)}, Tag: 4, Value: mib})
		}
		want := n<<20 <= math.MaxInt32
		if want && sh%2 == 1 && n > 64 {
			return ""
		}
		data, ok := agentx.EncodePdu(p)
		c.W.Step(1)
		c.W.State(mc.NewHash().Str("limit").U(uint64(n)).Sum())
		if ok != want {
			return fmt.Sprintf("EncodePdu reports ok=%v, want %v, for a payload of %d MiB", ok, want, n)
		}
		if ok && len(data) != 20+n<<20 {
			return fmt.Sprintf("EncodePdu gives %d bytes for a payload of %d MiB", len(data), n)
		}
		return ""
	})
	debug.FreeOSMemory()
	vals := allValues()
	r.Explore("value tags x value types", 256, 0, func(sh int, c *mc.Ctx) string {
		for _, v := range vals {
			for tag := byte(1); tag <= 18; tag++ {
				for pos := 0; pos < 3; pos++ {
					p := agentx.Pdu{Tag: agentx.PduTag(tag), Params: defaultParams(ref.Types[tag].Kind)}
					for i := 0; i < pos; i++ {
						p.Varbinds = append(p.Varbinds, asn.Varbind{Tag: 2, Value: int32(3), Oid: []uint32{1}})
					}
					p.Varbinds = append(p.Varbinds, asn.Varbind{Tag: asn.Tag(sh), Value: v, Oid: []uint32{1, 2}})
					if pos == 1 {
						p.Varbinds = append(p.Varbinds, asn.Varbind{Tag: 5, Oid: []uint32{1}})
					}
					c.W.State(mc.NewHash().U(uint64(sh)<<16 | uint64(tag)<<8 | uint64(pos)).Str(fmt.Sprintf("%T", v)).Sum())
					if m := checkVerdict(p, c.W); m != "" {
						return m
					}
				}
			}
		}
		return ""
	})
	r.Explore("fields", len(tagFlags), bound(r, 2, 3), func(sh int, c *mc.Ctx) string {
		x := tagFlags[sh]
		p := gen{c: c, bad: true}.pdu(x.tag, x.flags)
		c.W.State(pduHash(p, mc.NewHash()).Sum())
		if c.Fresh() {
			r.Sample(ref.Show(p))
		}
		return checkVerdict(p, c.W)
	})
	// OID lengths at every place an OID can stand
	var lens [][]uint32
	for n := 0; n <= 300; n++ {
		lens = append(lens, longOid(nil, n), longOid([]uint32{1, 3, 6, 1, 5}, n), longOid([]uint32{1, 3, 6, 1, 0}, n), longOid([]uint32{1, 3, 6, 1, 300}, n))
	}
	lens = append(lens, oidx...)
	r.Explore("oid lengths", len(lens), 0, func(sh int, c *mc.Ctx) string {
		o := lens[sh]
		for k := 0; k < 9; k++ {
			p := agentx.Pdu{Flags: agentx.Flags(c.W.Steps & 1 * ref.FNbo)}
			switch k {
			case 0:
				p.Tag, p.Params = 1, agentx.OpenParams{Oid: o}
			case 1:
				p.Tag, p.Params = 3, agentx.RegisterParams{Subtree: o, RangeSubid: 1}
			case 2:
				p.Tag, p.Params = 4, agentx.UnregisterParams{Subtree: o}
			case 3:
				p.Tag, p.Params = 16, agentx.AddAgentCapsParams{Oid: o}
			case 4:
				p.Tag, p.Params = 17, agentx.RemoveAgentCapsParams{Oid: o}
			case 5:
				p.Tag, p.Params, p.Ranges = 5, agentx.NoParams{}, []agentx.SearchRange{{StartOid: o}}
			case 6:
				p.Tag, p.Params, p.Ranges = 6, agentx.NoParams{}, []agentx.SearchRange{{}, {EndOid: o}}
			case 7:
				p.Tag, p.Params, p.Varbinds = 8, agentx.NoParams{}, []asn.Varbind{{Tag: 5, Oid: o}}
			case 8:
				p.Tag, p.Params, p.Varbinds = 18, agentx.ResponseParams{}, []asn.Varbind{{Tag: 6, Oid: []uint32{1}, Value: o}}
			}
			c.W.State(mc.NewHash().U(uint64(sh*16 + k)).Sum())
			if m := checkVerdict(p, c.W); m != "" {
				return m
			}
		}
		return ""
	})
	r.Explore("GetBulk counters", 256, 0, func(sh int, c *mc.Ctx) string {
		for v := 0; v < 256; v++ {
			n := int16(uint16(sh)<<8 | uint16(v))
			for _, q := range []agentx.GetBulkParams{{NonRepeaters: n}, {MaxRepeatitions: n}, {NonRepeaters: n, MaxRepeatitions: n}, {NonRepeaters: 5, MaxRepeatitions: n}, {NonRepeaters: n, MaxRepeatitions: 5}} {
				if m := checkVerdict(agentx.Pdu{Tag: 7, Params: q}, c.W); m != "" {
					return m
				}
			}
		}
		return ""
	})
}

// --- C04

func checkHeader(b []byte) string {
	got, ok := agentx.DecodePduHeader(b)
	want, wok := ref.DecodeHeader(b)
	if ok != wok {
		return fmt.Sprintf("DecodePduHeader(%x) reports ok=%v, want %v", b, ok, wok)
	}
	if ok {
		if got.Tag != want.Tag || got.Flags != want.Flags || got.SessionId != want.SessionId || got.TransactionId != want.TransactionId ||
			got.PacketId != want.PacketId || got.PayloadSize != want.PayloadSize {
			return fmt.Sprintf("DecodePduHeader(%x) gives %s, want %s", b, ref.Show(got), ref.Show(want))
		}
	}
	return ""
}

func checkC04(r *mc.Runner) {
	tail := []byte{0, 0, 0, 0, 0x11, 0x12, 0x13, 0x14, 0x21, 0x22, 0x23, 0x24, 0x31, 0x32, 0x33, 0x34, 0, 0, 0, 0}
	r.Sample(fmt.Sprintf("%x", tail))
	// All values of the first four bytes (quick: all with one of 8 versions
	// and the rest of the versions with a few reserved bytes).
	var vs []int
	for v := 0; v < 256; v++ {
		vs = append(vs, v)
	}
	res := func(v int) []int {
		if r.Thorough() || v <= 1 {
			return nil // all
		}
		return []int{0, 1, 255}
	}
	r.Explore("first four bytes", 256*256, 0, func(sh int, c *mc.Ctx) string {
		v, tag := vs[sh/256], sh%256
		b := append([]byte(nil), tail...)
		b[0], b[1] = byte(v), byte(tag)
		rs := res(v)
		all := rs == nil
		n := len(rs)
		if all {
			n = 256
		}
		for f := 0; f < 256; f++ {
			b[2] = byte(f)
			for i := 0; i < n; i++ {
				b[3] = byte(i)
				if !all {
					b[3] = byte(rs[i])
				}
				if m := checkHeader(b); m != "" {
					return m
				}
			}
		}
		c.W.Step(256 * n)
		return ""
	})
	r.Add("first four bytes (states)", 0, 0, 0, true, nil)
	// every byte value at every position, with every type and flags
	r.Explore("one byte", len(tagFlags)*20, 0, func(sh int, c *mc.Ctx) string {
		x, pos := tagFlags[sh/20], sh%20
		for _, size := range []byte{0, 4, 8, 252} {
			b := append([]byte(nil), tail...)
			b[0], b[1], b[2] = 1, x.tag, x.flags
			if x.flags&ref.FNbo != 0 {
				b[19] = size
			} else {
				b[16] = size
			}
			for v := 0; v < 256; v++ {
				b[pos] = byte(v)
				c.W.State(mc.NewHash().Bytes(b).Sum())
				if m := checkHeader(b); m != "" {
					return m
				}
			}
		}
		c.W.Step(256 * 4)
		return ""
	})
	// the length field
	r.Explore("length field", 512, 0, func(sh int, c *mc.Ctx) string {
		b := append([]byte(nil), tail...)
		b[0], b[1], b[2] = 1, byte(1+sh%18), byte(sh/256*ref.FNbo)
		hi := uint32(sh % 256)
		lo := func(x uint32) string {
			w := ref.W{Nbo: sh/256 == 1}
			w.U32(x)
			copy(b[16:], w.B)
			return checkHeader(b)
		}
		n := uint32(1 << 16)
		if r.Thorough() {
			n = 1 << 24
		}
		for x := uint32(0); x < n; x++ {
			if m := lo(hi<<24 | x); m != "" {
				return m
			}
		}
		c.W.Step(int(n))
		for _, x := range u32b {
			if m := lo(x); m != "" {
				return m
			}
		}
		return ""
	})
	// ids: all combinations of boundary values in both orders, every type
	r.Explore("ids", len(tagFlags), 0, func(sh int, c *mc.Ctx) string {
		w := ref.W{Nbo: tagFlags[sh].flags&ref.FNbo != 0}
		w.U8(1, tagFlags[sh].tag, tagFlags[sh].flags, 0)
		w.U32(mc.PickOf(c, u32s))
		w.U32(mc.PickOf(c, u32s))
		w.U32(mc.PickOf(c, u32s))
		w.U32(mc.PickOf(c, []uint32{0, 4, 0x7ffffffc, 0x80000000}))
		c.W.State(mc.NewHash().Bytes(w.B).Sum())
		c.W.Step(1)
		return checkHeader(w.B)
	})
	// lengths
	r.Explore("data length", len(tagFlags), 0, func(sh int, c *mc.Ctx) string {
		for n := 0; n <= 80; n++ {
			for k := 0; k < 3; k++ {
				b := make([]byte, n, n+64)
				if k == 1 {
					for i := range b {
						b[i] = 0xff
					}
				}
				full := b[:n+64]
				for i := n; k == 2 && i < len(full); i++ {
					full[i] = 0
				}
				copy(b, []byte{1, tagFlags[sh].tag, tagFlags[sh].flags, 0})
				if m := checkHeader(b); m != "" {
					return m
				}
				c.W.Step(1)
				c.W.State(mc.NewHash().Bytes(b).Sum())
			}
		}
		for _, n := range []int{100, 255, 256, 257, 276, 1000, 4096, 65536 + 20} {
			b := make([]byte, n)
			copy(b, []byte{1, tagFlags[sh].tag, tagFlags[sh].flags, 0})
			if m := checkHeader(b); m != "" {
				return m
			}
		}
		if m := checkHeader(nil); m != "" {
			return m
		}
		return ""
	})
}
