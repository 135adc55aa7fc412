package main

import (
	"bytes"
	"fmt"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"

	"verif/mc"
	"verif/ref"
)

func init() {
	checks["C08"] = checkC08
	checks["C10"] = checkC10
}

// menu returns sample PDUs of every type, both byte orders.
func menu() []agentx.Pdu {
	var out []agentx.Pdu
	o := func(x ...uint32) []uint32 { return x }
	all := []asn.Varbind{vb(2, o(1, 3, 6, 1, 4, 1, 1), int32(-5)), vb(4, o(1, 3, 6, 1, 4, 1, 2), "octets"), vb(5, o(1, 3, 6, 1, 2), nil), vb(6, o(2, 9), o(1, 3, 6, 1, 4, 7, 8)),
		vb(64, o(1), [4]byte{10, 1, 2, 3}), vb(65, o(1, 2), uint32(0x80000001)), vb(66, o(1, 2, 3), uint32(6)), vb(67, o(1, 2, 3, 4), uint32(7)),
		vb(68, o(1, 3, 6, 1, 9, 9), []byte{9, 8, 7, 6, 5}), vb(70, o(1, 3, 6, 1, 9, 10), uint64(1)<<63|5), vb(128, o(3), nil), vb(129, o(4), nil), vb(130, nil, nil)}
	for i := 0; i < 2; i++ {
		f := agentx.Flags(i * ref.FNbo)
		add := func(tag byte, p agentx.Pdu) {
			p.Tag = agentx.PduTag(tag)
			p.Flags |= f
			p.SessionId, p.TransactionId, p.PacketId = 0x01020304+uint32(tag), 0x0a0b0c0d, uint32(len(out))<<16|7
			if p.Params == nil {
				p.Params = agentx.NoParams{}
			}
			out = append(out, p)
		}
		add(1, agentx.Pdu{Params: agentx.OpenParams{Timeout: 5, Oid: o(1, 3, 6, 1, 4, 1, 77), Description: "descr"}})
		add(2, agentx.Pdu{Params: agentx.CloseParams{Reason: 5}})
		add(3, agentx.Pdu{Flags: 8, Context: "ctx", Params: agentx.RegisterParams{Timeout: 1, Priority: 127, RangeSubid: 3, Subtree: o(1, 3, 6, 1, 2, 1, 2), UpperBound: 99}})
		add(4, agentx.Pdu{Params: agentx.UnregisterParams{Priority: 127, Subtree: o(1, 2, 3)}})
		add(5, agentx.Pdu{Ranges: []agentx.SearchRange{{StartOid: o(1, 3, 6, 1, 2, 1), EndOid: o(1, 3, 6, 1, 2, 2), StartIncluded: 1}, {StartOid: o(2, 4)}, {StartOid: o(7, 7, 7), EndOid: o(8)}}})
		add(6, agentx.Pdu{Flags: 8, Context: "context2", Ranges: []agentx.SearchRange{{StartOid: o(1), EndOid: o(2)}}})
		add(7, agentx.Pdu{Params: agentx.GetBulkParams{NonRepeaters: 1, MaxRepeatitions: 300}, Ranges: []agentx.SearchRange{{}, {StartOid: o(5, 6)}}})
		add(8, agentx.Pdu{Varbinds: all[:6]})
		add(9, agentx.Pdu{})
		add(12, agentx.Pdu{Flags: 8, Context: "n", Varbinds: all[6:]})
		add(13, agentx.Pdu{Flags: 8, Context: ""})
		add(14, agentx.Pdu{Flags: 2, Varbinds: all[3:4]})
		add(15, agentx.Pdu{Flags: 4, Varbinds: nil})
		add(16, agentx.Pdu{Params: agentx.AddAgentCapsParams{Oid: o(1, 3, 6, 1, 6, 3), Description: "caps"}})
		add(17, agentx.Pdu{Params: agentx.RemoveAgentCapsParams{Oid: o(1, 3, 6, 1, 6, 3, 1)}})
		add(18, agentx.Pdu{Params: agentx.ResponseParams{SysUpTime: 5, Error: 0, Index: 0}, Varbinds: all})
		add(18, agentx.Pdu{Flags: 8, Context: "resp", Params: agentx.ResponseParams{SysUpTime: 6, Error: 268, Index: 2}, Varbinds: all[:1]})
		add(10, agentx.Pdu{})
		add(11, agentx.Pdu{})
	}
	return out
}

const sentinel = 0xDEADBEEF

// guardOids gives every OID of p its own array with sentinels behind it.
func guard(p agentx.Pdu) (agentx.Pdu, func() string) {
	var arrs [][]uint32
	var barrs [][]byte
	o := func(x []uint32) []uint32 {
		a := append(append(make([]uint32, 0, len(x)+3), x...), sentinel, sentinel, sentinel)
		arrs = append(arrs, a)
		return a[:len(x)]
	}
	q := p
	switch x := p.Params.(type) {
	case agentx.OpenParams:
		x.Oid = o(x.Oid)
		q.Params = x
	case agentx.RegisterParams:
		x.Subtree = o(x.Subtree)
		q.Params = x
	case agentx.UnregisterParams:
		x.Subtree = o(x.Subtree)
		q.Params = x
	case agentx.AddAgentCapsParams:
		x.Oid = o(x.Oid)
		q.Params = x
	case agentx.RemoveAgentCapsParams:
		x.Oid = o(x.Oid)
		q.Params = x
	}
	rs := make([]agentx.SearchRange, 0, len(p.Ranges)+2)
	for _, r := range p.Ranges {
		r.StartOid, r.EndOid = o(r.StartOid), o(r.EndOid)
		rs = append(rs, r)
	}
	vs := make([]asn.Varbind, 0, len(p.Varbinds)+2)
	for _, v := range p.Varbinds {
		v.Oid = o(v.Oid)
		switch y := v.Value.(type) {
		case []uint32:
			v.Value = o(y)
		case []byte:
			a := append(append(make([]byte, 0, len(y)+3), y...), 0xAB, 0xAB, 0xAB)
			barrs = append(barrs, a)
			v.Value = a[:len(y)]
		}
		vs = append(vs, v)
	}
	q.Ranges, q.Varbinds = rs, vs
	return q, func() string {
		for _, a := range arrs {
			for _, x := range a[len(a)-3:] {
				if x != sentinel {
					return "memory behind an OID of the PDU was overwritten"
				}
			}
		}
		for _, a := range barrs {
			for _, x := range a[len(a)-3:] {
				if x != 0xAB {
					return "memory behind an Opaque value of the PDU was overwritten"
				}
			}
		}
		for _, r := range rs[:cap(rs)][len(rs):] {
			if r.StartOid != nil || r.EndOid != nil || r.StartIncluded != 0 {
				return "memory behind the ranges of the PDU was overwritten"
			}
		}
		for _, v := range vs[:cap(vs)][len(vs):] {
			if v.Oid != nil || v.Value != nil || v.Tag != 0 {
				return "memory behind the varbinds of the PDU was overwritten"
			}
		}
		return ""
	}
}

// eachOid visits every slice of a PDU, in a fixed order.
func eachSlice(p *agentx.Pdu, o func([]uint32), b func([]byte)) {
	switch x := p.Params.(type) {
	case agentx.OpenParams:
		o(x.Oid)
	case agentx.RegisterParams:
		o(x.Subtree)
	case agentx.UnregisterParams:
		o(x.Subtree)
	case agentx.AddAgentCapsParams:
		o(x.Oid)
	case agentx.RemoveAgentCapsParams:
		o(x.Oid)
	}
	for _, r := range p.Ranges {
		o(r.StartOid)
		o(r.EndOid)
	}
	for _, v := range p.Varbinds {
		o(v.Oid)
		switch y := v.Value.(type) {
		case []uint32:
			o(y)
		case []byte:
			b(y)
		}
	}
}

// scribble changes every slice element of a PDU.
func scribble(p *agentx.Pdu) {
	eachSlice(p, func(o []uint32) {
		for i := range o {
			o[i] += 1000003
		}
	}, func(b []byte) {
		for i := range b {
			b[i] ^= 0x5a
		}
	})
}

// extend appends to every slice of a PDU and throws the longer slice away.
func extend(p *agentx.Pdu) {
	eachSlice(p, func(o []uint32) {
		o = o[:len(o):cap(o)]
		for len(o) < cap(o) {
			o = append(o, sentinel)
		}
		_ = append(o, 1)
	}, func(b []byte) {
		for len(b) < cap(b) {
			b = append(b, 0xEE)
		}
		_ = append(b, 1)
	})
	r := p.Ranges
	for len(r) < cap(r) {
		r = append(r, agentx.SearchRange{StartOid: []uint32{sentinel}})
	}
	v := p.Varbinds
	for len(v) < cap(v) {
		v = append(v, vb(4, []uint32{sentinel}, "sentinel"))
	}
}

type wireBuf struct {
	b, model []byte // real bytes and what they must be
	label    string
}

type pduVar struct {
	p, model agentx.Pdu
	label    string
}

// freshEncode encodes a private copy.
func freshEncode(p agentx.Pdu) ([]byte, bool) {
	b, ok := agentx.EncodePdu(ref.Copy(p))
	return append([]byte(nil), b...), ok
}

// freshDecode decodes a private copy into a new variable.
func freshDecode(b []byte) (agentx.Pdu, bool) {
	c := append([]byte(nil), b...)
	p, ok := agentx.DecodePduHeader(c[:20:20])
	if !ok {
		return p, false
	}
	ok = agentx.DecodePduPayload(&p, c[20:])
	return ref.Copy(p), ok
}

func checkC08(r *mc.Runner) {
	m := menu()
	var pairs [][2]int
	for i := range m {
		for j := range m {
			if i == j || (i+j)%5 == 0 || j == i+1 || r.Thorough() || (ref.Types[m[i].Tag].Varbinds && ref.Types[m[j].Tag].Varbinds) || ref.Types[m[i].Tag].Ranges && ref.Types[m[j].Tag].Ranges {
				pairs = append(pairs, [2]int{i, j})
			}
		}
	}
	r.Sample("two source PDUs, each with sentinels behind every slice, e.g. " + ref.Show(m[7]))
	depth := bound(r, 5, 6)
	r.Explore("histories", len(pairs), 0, func(sh int, c *mc.Ctx) string {
		var src [2]pduVar
		var guards [2]func() string
		for i, k := range pairs[sh] {
			src[i].p, guards[i] = guard(m[k])
			src[i].model = ref.Copy(m[k])
			src[i].label = fmt.Sprintf("source %d", i)
		}
		var bufs []*wireBuf
		var vars []*pduVar
		hist := ""
		verify := func() string {
			for i := range src {
				if d := ref.Diff(src[i].p, src[i].model); d != "" {
					return fmt.Sprintf("%s changed: %s", src[i].label, d)
				}
				if g := guards[i](); g != "" {
					return g
				}
			}
			for _, b := range bufs {
				if !bytes.Equal(b.b, b.model) {
					return fmt.Sprintf("%s changed to %s, want %s", b.label, hexs(b.b), hexs(b.model))
				}
			}
			for _, v := range vars {
				if d := ref.Diff(v.p, v.model); d != "" {
					return fmt.Sprintf("%s changed: %s", v.label, d)
				}
			}
			return ""
		}
		fail := func(s string) string {
			return fmt.Sprintf("%s\nhistory:%s\nsources: %s\n  %s", s, hist, ref.Show(m[pairs[sh][0]]), ref.Show(m[pairs[sh][1]]))
		}
		for step := 0; step < depth; step++ {
			// enabled actions
			type act struct{ k, i, j int }
			var acts []act
			for i := range src {
				acts = append(acts, act{0, i, 0})
			}
			for i := range bufs {
				acts = append(acts, act{1, i, 0})
				for j := range vars {
					acts = append(acts, act{2, i, j})
				}
				acts = append(acts, act{3, i, 0})
			}
			for j := range vars {
				acts = append(acts, act{4, j, 0}, act{6, j, 0})
			}
			if step > 0 {
				acts = append(acts, act{5, 0, 0})
			}
			a := mc.PickOf(c, acts)
			c.W.Step(1)
			switch a.k {
			case 0: // encode a source
				hist += fmt.Sprintf(" encode(source %d);", a.i)
				want, wok := freshEncode(src[a.i].model)
				data, ok := agentx.EncodePdu(src[a.i].p)
				if ok != wok {
					return fail(fmt.Sprintf("encoding reports ok=%v, with a fresh copy ok=%v", ok, wok))
				}
				if !ok {
					continue
				}
				if !bytes.Equal(data, want) {
					return fail(fmt.Sprintf("encoding gives %s, of a fresh copy %s", hexs(data), hexs(want)))
				}
				bufs = append(bufs, &wireBuf{data, want, fmt.Sprintf("buffer %d", len(bufs))})
			case 1, 2: // decode a buffer into a new or a used variable
				b := bufs[a.i]
				if len(b.model) < 20 {
					continue
				}
				want, wok := freshDecode(b.model)
				h, ok := agentx.DecodePduHeader(b.b[:20])
				if !ok {
					if wok {
						return fail(fmt.Sprintf("header decoding of buffer %d fails, of a fresh copy it does not", a.i))
					}
					continue
				}
				if a.k == 1 {
					hist += fmt.Sprintf(" decode(buffer %d);", a.i)
					ok = agentx.DecodePduPayload(&h, b.b[20:])
					if ok != wok {
						return fail(fmt.Sprintf("payload decoding of buffer %d reports ok=%v, want %v", a.i, ok, wok))
					}
					if !ok {
						continue
					}
					if d := ref.Diff(h, want); d != "" {
						return fail("decoding gives " + d)
					}
					vars = append(vars, &pduVar{h, want, fmt.Sprintf("decoded %d", len(vars))})
				} else {
					hist += fmt.Sprintf(" decode(buffer %d into variable %d);", a.i, a.j)
					v := vars[a.j]
					old := v.p // earlier contents may still be held by someone
					oldm := v.model
					v.p.Tag, v.p.Flags, v.p.SessionId, v.p.TransactionId, v.p.PacketId, v.p.PayloadSize = h.Tag, h.Flags, h.SessionId, h.TransactionId, h.PacketId, h.PayloadSize
					dbg := v.p
					ok = agentx.DecodePduPayload(&v.p, b.b[20:])
					if ok != wok {
						return fail(fmt.Sprintf("payload decoding of buffer %d into a used variable reports ok=%v, want %v", a.i, ok, wok))
					}
					if !ok {
						return ""
					}
					got := v.p
					if d := ref.Diff(got, want); d != "" {
						return fail("decoding into a used variable gives " + d)
					}
					if agentx.DecodePduPayloadDbg(&dbg, b.b[20:], &discard{}) {
						if d := ref.Diff(dbg, want); d != "" {
							return fail("debug decoding into a used variable gives " + d)
						}
					}
					v.p, v.model = got, want
					vars = append(vars, &pduVar{old, oldm, fmt.Sprintf("earlier contents of variable %d", a.j)})
				}
			case 3: // overwrite a buffer
				hist += fmt.Sprintf(" overwrite(buffer %d);", a.i)
				b := bufs[a.i]
				full := b.b[:cap(b.b)]
				for i := range full {
					full[i] ^= 0xA5
				}
				for i := range b.model {
					b.model[i] ^= 0xA5
				}
			case 4:
				hist += fmt.Sprintf(" modify(decoded %d);", a.i)
				scribble(&vars[a.i].p)
				scribble(&vars[a.i].model)
			case 6:
				hist += fmt.Sprintf(" extend(decoded %d);", a.i)
				extend(&vars[a.i].p)
			case 5:
				hist += " modify(source 0);"
				scribble(&src[0].p)
				scribble(&src[0].model)
			}
			if s := verify(); s != "" {
				return fail(s)
			}
		}
		c.W.State(mc.NewHash().U(uint64(sh)).Str(hist).Sum())
		c.W.Outcome(fmt.Sprintf("%d buffers, %d decoded", len(bufs), len(vars)))
		return ""
	})
	// Input bytes with live neighbours: the result must not depend on them,
	// and they must not change.
	var cases [][]byte
	for _, x := range tagFlags1 {
		for _, p := range basePdus(x.tag, x.flags) {
			cases = append(cases, ref.Encode(p))
		}
	}
	whole := len(cases)
	r.Explore("input embedded in a larger array", whole, 0, func(sh int, c *mc.Ctx) string {
		pos := c.Pick(len(cases[sh])-19) + 19 // the byte that is damaged; 19: none
		b := append([]byte(nil), cases[sh]...)
		fills := []byte{0, 1, 0xff}
		if pos > 19 {
			b[pos] ^= mc.PickOf(c, []byte{0xff, 0x01, 0x80})
			fills = []byte{byte(pos)}
		}
		for _, fill := range fills {
			arr := bytes.Repeat([]byte{fill}, len(b)+64)
			copy(arr[32:], b)
			keep := append([]byte(nil), arr...)
			hb := arr[32:52]
			pb := arr[52 : 32+len(b)]
			h, ok := agentx.DecodePduHeader(hb)
			want, wok := freshDecode(b)
			ok = ok && agentx.DecodePduPayload(&h, pb)
			if ok != wok {
				return fmt.Sprintf("decoding inside a larger array reports ok=%v, of a copy ok=%v: %s", ok, wok, hexs(b))
			}
			if !bytes.Equal(arr, keep) {
				return "decoding modified the input array"
			}
			if !ok {
				if h3, ok := agentx.DecodePduHeaderDbg(hb, &discard{}); ok {
					agentx.DecodePduPayloadDbg(&h3, pb, &discard{})
				}
				if !bytes.Equal(arr, keep) {
					return "debug decoding modified the input array"
				}
				continue
			}
			if d := ref.Diff(h, want); d != "" {
				return "decoding inside a larger array gives " + d
			}
			scribble(&h)
			extend(&h)
			if !bytes.Equal(arr, keep) {
				return "modifying the decoded PDU modified the input array"
			}
			h2, _ := agentx.DecodePduHeader(hb)
			agentx.DecodePduPayload(&h2, pb)
			for i := range arr {
				arr[i] ^= 0xff
			}
			if d := ref.Diff(h2, want); d != "" {
				return "overwriting the input changed the decoded PDU: " + d
			}
			// the same for the debug version
			copy(arr, keep)
			h3, _ := agentx.DecodePduHeaderDbg(hb, &discard{})
			agentx.DecodePduPayloadDbg(&h3, pb, &discard{})
			if !bytes.Equal(arr, keep) {
				return "debug decoding modified the input array"
			}
			for i := range arr {
				arr[i] ^= 0xff
			}
			if d := ref.Diff(h3, want); d != "" {
				return "overwriting the input changed the PDU decoded by the debug version: " + d
			}
			scribble(&h3)
			for i := range arr {
				if arr[i] != keep[i]^0xff {
					return "modifying the PDU decoded by the debug version modified the input array"
				}
			}
			c.W.Step(3)
		}
		c.W.State(mc.NewHash().Bytes(b).Sum())
		return ""
	})
	// Encoding leaves every source as it is, also one that is refused and
	// also the fields that the PDU type does not include.
	r.Explore("sources are only read", len(tagFlags1), bound(r, 2, 3), func(sh int, c *mc.Ctx) string {
		p := gen{c: c, bad: true, lite: true}.pdu(tagFlags1[sh].tag, tagFlags1[sh].flags)
		if c.Dev(2) == 1 { // values where the wire format has none
			p.Ranges = append(p.Ranges, agentx.SearchRange{StartIncluded: 7, EndOid: []uint32{5}})
			p.Varbinds = append(p.Varbinds, vb(5, nil, "null"), vb(128, []uint32{}, []byte{1, 2}), vb(130, []uint32{1}, []uint32{3, 4}), vb(4, []uint32{1, 3, 6, 1, 9}, []byte{9}))
		}
		q, sentinels := guard(p)
		agentx.EncodePdu(q)
		for i := 0; i < 3; i++ {
			if d := ref.Diff(q, p); d != "" {
				return fmt.Sprintf("%s changes its argument: %s\nsource: %s", []string{"EncodePdu", "EncodePduDbg", "String"}[i], d, ref.Show(p))
			}
			if s := sentinels(); s != "" {
				return s
			}
			c.W.Step(1)
			if i == 0 {
				agentx.EncodePduDbg(q, &discard{})
			} else if i == 1 && len(p.Varbinds) < 20 {
				q.String(c.Pick(2))
			}
		}
		c.W.State(pduHash(p, mc.NewHash()).Sum())
		return ""
	})
	// A variable is as good as new after any earlier use, a failed one included.
	var dam [][]byte
	for _, p := range m {
		b := ref.Encode(p)
		for _, pos := range []int{20, 21, 22, 23, 24, 27, 28, 31, len(b) - 4, len(b) - 1} {
			if pos < len(b) && pos >= 20 {
				d := append([]byte(nil), b...)
				d[pos] ^= 0x81
				dam = append(dam, d)
			}
		}
		dam = append(dam, b)
	}
	r.Explore("variable used before", len(m), 0, func(sh int, c *mc.Ctx) string {
		b := ref.Encode(m[sh])
		want, wok := freshDecode(b)
		if !wok {
			return ""
		}
		d := mc.PickOf(c, dam)
		e := ref.Encode(m[c.Pick(len(m))])
		plain := c.Pick(2) == 0
		var v agentx.Pdu
		for i, x := range [][]byte{e, d, b} {
			h, ok := agentx.DecodePduHeader(x[:20])
			if !ok {
				return ""
			}
			v.Tag, v.Flags, v.SessionId, v.TransactionId, v.PacketId, v.PayloadSize = h.Tag, h.Flags, h.SessionId, h.TransactionId, h.PacketId, h.PayloadSize
			if plain {
				ok = agentx.DecodePduPayload(&v, x[20:])
			} else {
				ok = agentx.DecodePduPayloadDbg(&v, x[20:], &discard{})
			}
			if i == 2 {
				if !ok {
					return fmt.Sprintf("%s is refused after decoding %s and %s into the same variable", hexs(b), hexs(e), hexs(d))
				}
				if s := ref.Diff(v, want); s != "" {
					return fmt.Sprintf("decoding %s after %s and %s into the same variable gives %s", hexs(b), hexs(e), hexs(d), s)
				}
			}
			c.W.Step(1)
		}
		c.W.State(mc.NewHash().Bytes(b).Bytes(d).Bytes(e).Sum())
		return ""
	})
	// Large PDUs: nothing is shared between results, inputs and earlier contents.
	big := bigPdus(bound(r, 1<<18, 1<<22))
	r.Explore("large PDUs", len(big), 0, func(sh int, c *mc.Ctx) string {
		a := big[sh]
		b := big[(sh+mc.PickOf(c, []int{0, 1, 3, 4, 9}))%len(big)]
		what := func(s string) string { return fmt.Sprintf("%s (%s, then %s)", s, a.name, b.name) }
		ps := []agentx.Pdu{a.mk(), b.mk()}
		var enc, wire [2][]byte
		var model [2]agentx.Pdu
		for i := range ps {
			var ok bool
			if wire[i], ok = freshEncode(ps[i]); !ok {
				return ""
			}
			if model[i], ok = freshDecode(wire[i]); !ok {
				return ""
			}
		}
		for i := range ps {
			var ok bool
			if enc[i], ok = agentx.EncodePdu(ps[i]); !ok {
				return what("encoding refused, of a copy it is not")
			}
		}
		for i := range enc {
			c.W.Step(1)
			if !bytes.Equal(enc[i], wire[i]) {
				return what(fmt.Sprintf("encoding %d is not what it must be once the other PDU has been encoded", i))
			}
		}
		full := enc[0][:cap(enc[0])]
		for i := range full {
			full[i] ^= 0xa5
		}
		if !bytes.Equal(enc[1], wire[1]) {
			return what("overwriting one encoding changes another")
		}
		if again, ok := agentx.EncodePdu(ps[0]); !ok || !bytes.Equal(again, wire[0]) {
			return what("overwriting an encoding changes the next one")
		}
		if !bytes.Equal(enc[1], wire[1]) {
			return what("encoding changes an earlier result")
		}
		var vars [2]agentx.Pdu
		for i := range ps {
			in := append([]byte(nil), wire[i]...)
			h, ok := agentx.DecodePduHeader(in[:20])
			if !ok || !agentx.DecodePduPayload(&h, in[20:]) {
				return what("decoding refused")
			}
			if !bytes.Equal(in, wire[i]) {
				return what("decoding changes its input")
			}
			for j := range in {
				in[j] ^= 0xa5
			}
			vars[i] = h
		}
		verify := func(s string) string {
			for i := range vars {
				if d := ref.Diff(vars[i], model[i]); d != "" {
					return what(fmt.Sprintf("%s: decoded PDU %d has %s", s, i, d))
				}
			}
			c.W.Step(1)
			return ""
		}
		if s := verify("after overwriting the input"); s != "" {
			return s
		}
		extend(&vars[0])
		if s := verify("after appending to the slices of PDU 0"); s != "" {
			return s
		}
		scribble(&vars[0])
		scribble(&model[0])
		if s := verify("after changing PDU 0"); s != "" {
			return s
		}
		// decode again into the first variable; its old contents are held
		v := vars[0]
		in := append([]byte(nil), wire[1]...)
		h, _ := agentx.DecodePduHeader(in[:20])
		v.Tag, v.Flags, v.SessionId, v.TransactionId, v.PacketId, v.PayloadSize = h.Tag, h.Flags, h.SessionId, h.TransactionId, h.PacketId, h.PayloadSize
		if !agentx.DecodePduPayload(&v, in[20:]) {
			return what("decoding into a used variable refused")
		}
		if s := verify("after decoding into a variable used before"); s != "" {
			return s
		}
		if d := ref.Diff(v, model[1]); d != "" {
			return what("decoding into a used variable gives " + d)
		}
		scribble(&v)
		extend(&v)
		if s := verify("after changing the PDU decoded into the used variable"); s != "" {
			return s
		}
		c.W.State(mc.NewHash().Str(a.name).Str(b.name).Sum())
		return ""
	})
}

// --- C10

func checkC10(r *mc.Runner) {
	m := menu()
	type frame struct {
		b      []byte
		model  agentx.Pdu
		intact bool
	}
	var frames []frame
	broken := 0
	damaged := func(b []byte) frame { // header intact, payload not
		h, _ := ref.DecodeHeader(b[:20])
		if _, ok := ref.DecodePayload(h, b[20:]); !ok {
			broken++
		}
		return frame{b, agentx.Pdu{}, false}
	}
	for _, p := range m {
		b, ok := agentx.EncodePdu(p)
		if !ok {
			r.Note("not encoded: %s", ref.Show(p))
			continue
		}
		frames = append(frames, frame{append([]byte(nil), b...), ref.Normal(p, len(b)), true})
	}
	valid := len(frames)
	// corrupted payloads. First the small alphabet: payloads overwritten as a
	// whole, and each of the first and last bytes flipped; then every byte of
	// every payload, with three patterns.
	for i := 0; i < valid; i++ {
		b := ref.Encode(m[i])
		if len(b) == 20 {
			continue
		}
		for _, v := range []byte{0, 0xff} {
			d := append([]byte(nil), b...)
			for j := 20; j < len(d); j++ {
				d[j] = v
			}
			frames = append(frames, damaged(d))
		}
		for _, pos := range []int{20, 21, 23, len(b) - 1} {
			d := append([]byte(nil), b...)
			d[pos] ^= 0x81
			frames = append(frames, damaged(d))
		}
	}
	small := len(frames)
	for i := 0; i < valid; i++ {
		b := ref.Encode(m[i])
		for pos := 20; pos < len(b); pos++ {
			for _, x := range []byte{0x01, 0x80, 0xff} {
				d := append([]byte(nil), b...)
				d[pos] ^= x
				frames = append(frames, damaged(d))
			}
		}
	}
	r.Note("%d frames: %d as encoded, %d with a corrupted payload of which %d are no longer well-formed", len(frames), valid, len(frames)-valid, broken)
	r.Sample(fmt.Sprintf("stream of frame 3, corrupted frame %x, frame 5", frames[valid].b))
	stream := func(fs []frame, mode int, w *mc.Worker) string {
		var s []byte
		for _, f := range fs {
			s = append(s, f.b...)
		}
		hbuf := make([]byte, 20)
		pbuf := make([]byte, 0, 4096)
		var got []agentx.Pdu
		var oks []bool
		var pdu agentx.Pdu
		for off := 0; off < len(s); {
			if len(s)-off < 20 {
				return fmt.Sprintf("%d bytes left over in the stream", len(s)-off)
			}
			copy(hbuf, s[off:])
			off += 20
			h, ok := agentx.DecodePduHeader(hbuf)
			if !ok {
				return fmt.Sprintf("the reader loses synchronisation: header %x at offset %d is refused", hbuf, off-20)
			}
			n := int(h.PayloadSize)
			if len(s)-off < n {
				return fmt.Sprintf("payload size %d announced with %d bytes left", n, len(s)-off)
			}
			var pb []byte
			if mode == 0 { // fresh buffer per PDU, as documented
				pb = append([]byte(nil), s[off:off+n]...)
			} else { // one buffer for all
				pb = append(pbuf[:0], s[off:off+n]...)
			}
			off += n
			if mode == 2 { // one PDU variable for all
				c, pa, ra, va := pdu.Context, pdu.Params, pdu.Ranges, pdu.Varbinds
				pdu = h
				pdu.Context, pdu.Params, pdu.Ranges, pdu.Varbinds = c, pa, ra, va
			} else {
				pdu = h
			}
			ok = agentx.DecodePduPayload(&pdu, pb)
			q := pdu
			if mode == 2 {
				ti := ref.Types[h.Tag]
				if byte(h.Flags)&ref.FCtx == 0 {
					q.Context = ""
				}
				if !ti.Ranges {
					q.Ranges = nil
				}
				if !ti.Varbinds {
					q.Varbinds = nil
				}
			}
			got = append(got, q)
			oks = append(oks, ok)
			w.Step(1)
		}
		if len(got) != len(fs) {
			return fmt.Sprintf("%d PDUs recovered from a stream of %d", len(got), len(fs))
		}
		for i, f := range fs {
			if f.intact {
				if !oks[i] {
					return fmt.Sprintf("PDU %d of the stream is refused (mode %d): %s", i, mode, hexs(f.b))
				}
				if d := ref.Diff(got[i], f.model); d != "" {
					return fmt.Sprintf("PDU %d of the stream (mode %d): %s", i, mode, d)
				}
			}
		}
		return ""
	}
	// every frame, corrupted or not, before and after every intact one
	r.Explore("all pairs with an intact frame", len(frames), 0, func(sh int, c *mc.Ctx) string {
		for j := 0; j < valid; j++ {
			for mode := 0; mode < 3; mode++ {
				if m := stream([]frame{frames[sh], frames[j]}, mode, c.W); m != "" {
					return m
				}
				if m := stream([]frame{frames[j], frames[sh], frames[j]}, mode, c.W); m != "" {
					return m
				}
			}
			c.W.State(mc.NewHash().U(uint64(sh*len(frames) + j)).Sum())
		}
		return stream([]frame{frames[sh]}, 0, c.W)
	})
	// all triples: any, any, intact over the small alphabet
	r.Explore("all triples", small*small, 0, func(sh int, c *mc.Ctx) string {
		for k := 0; k < valid; k++ {
			c.W.State(mc.NewHash().U(1<<40 | uint64(sh*len(frames)+k)).Sum())
			for mode := 0; mode < 3; mode++ {
				if mode < 2 && !r.Thorough() && k%2 != mode {
					continue
				}
				if m := stream([]frame{frames[sh/small], frames[sh%small], frames[k]}, mode, c.W); m != "" {
					return m
				}
			}
		}
		return ""
	})
	if r.Thorough() {
		r.Explore("intact, any, intact", valid*valid, 0, func(sh int, c *mc.Ctx) string {
			for k := small; k < len(frames); k++ {
				if m := stream([]frame{frames[sh/valid], frames[k], frames[sh%valid]}, k%3, c.W); m != "" {
					return m
				}
			}
			return ""
		})
	}
	if r.Thorough() {
		r.Explore("all quadruples of intact frames", valid*valid, 0, func(sh int, c *mc.Ctx) string {
			for k := 0; k < valid; k++ {
				for l := 0; l < valid; l++ {
					if m := stream([]frame{frames[sh/valid], frames[k], frames[l], frames[sh%valid]}, 2, c.W); m != "" {
						return m
					}
				}
			}
			return ""
		})
	}
	// a writer that keeps one PDU variable: what earlier PDUs left in it (their
	// payload size, and the payload fields the next type does not include) stays
	sizes := []int32{0, 4, -1, 1 << 30}
	r.Explore("writers reusing one PDU variable", len(m)*len(m), 0, func(sh int, c *mc.Ctx) string {
		k := c.Pick(len(m))
		seq := []agentx.Pdu{m[sh/len(m)], m[sh%len(m)], m[k]}
		mode := c.Pick(len(sizes) + 2)
		var v agentx.Pdu
		var fs []frame
		for _, p := range seq {
			ti := ref.Types[p.Tag]
			size := v.PayloadSize
			if mode < len(sizes) {
				size = sizes[mode]
			}
			old := v
			v = p
			v.PayloadSize = size
			if byte(p.Flags)&ref.FCtx == 0 {
				v.Context = old.Context
			}
			if !ti.Ranges {
				v.Ranges = old.Ranges
			}
			if !ti.Varbinds {
				v.Varbinds = old.Varbinds
			}
			b, ok := agentx.EncodePdu(v)
			if !ok {
				return ""
			}
			fs = append(fs, frame{b, ref.Normal(p, len(b)), true})
			if mode == len(sizes)+1 { // the writer is a relay: it has decoded the PDU from another stream
				h, ok := agentx.DecodePduHeader(b[:20])
				if !ok || !agentx.DecodePduPayload(&h, b[20:]) {
					return fmt.Sprintf("PDU %s is not recovered from its own bytes", ref.Show(v))
				}
				b2, ok := agentx.EncodePdu(h)
				if !ok {
					return fmt.Sprintf("the decoded PDU is refused: %s", ref.Show(h))
				}
				fs = append(fs, frame{b2, ref.Normal(p, len(b2)), true})
			}
			v.PayloadSize = int32(len(b) - 20)
		}
		c.W.State(mc.NewHash().U(1<<41 | uint64((sh*len(m)+k)*8+mode)).Sum())
		return stream(fs, 0, c.W)
	})
	// all in one stream, in both orders, with each reader
	r.Explore("long streams", 6, 0, func(sh int, c *mc.Ctx) string {
		fs := append([]frame(nil), frames...)
		if sh >= 3 {
			for i, j := 0, len(fs)-1; i < j; i, j = i+1, j-1 {
				fs[i], fs[j] = fs[j], fs[i]
			}
		}
		return stream(fs, sh%3, c.W)
	})
	big := bigPdus(1 << 25)
	r.Explore("large PDUs in a stream", len(big), 0, func(sh int, c *mc.Ctx) string {
		p := big[sh].mk()
		b, ok := agentx.EncodePdu(p)
		if !ok {
			return ""
		}
		f := frame{b, ref.Normal(p, len(b)), true}
		if m := stream([]frame{frames[0], f, frames[5]}, sh%3, c.W); m != "" {
			return big[sh].name + ": " + m
		}
		if big[sh].weight > 1<<20+8 {
			return ""
		}
		if m := stream([]frame{f, f}, (sh+1)%3, c.W); m != "" {
			return big[sh].name + ", twice: " + m
		}
		return ""
	})
	// every size of varbind list, so that every payload length occurs
	r.Explore("payload sizes", 200, 0, func(sh int, c *mc.Ctx) string {
		p := agentx.Pdu{Tag: 18, Flags: agentx.Flags(c.Pick(2) * ref.FNbo), Params: agentx.ResponseParams{}}
		for i := 0; i < sh; i++ {
			p.Varbinds = append(p.Varbinds, vb(4, []uint32{1, 3, 6, 1, 2, uint32(i)}, "0123456789"[:i%9]))
		}
		b, ok := agentx.EncodePdu(p)
		if !ok {
			return ""
		}
		return stream([]frame{frames[0], {b, ref.Normal(p, len(b)), true}, frames[5]}, 1, c.W)
	})
}
