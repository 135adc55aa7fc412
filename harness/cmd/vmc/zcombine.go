package main

import (
	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/pduerror"

	"verif/mc"
	"verif/ref"
)

// Explorations of all combinations of few typical values of all fields at
// once, values that refer to each other included (an error index beyond the
// last varbind, an upper bound below the sub-identifier of the range, a range
// that ends where it starts). The deviation bound of the other explorations
// changes only a few fields at a time.

func init() {
	add := func(id string, f func(r *mc.Runner)) {
		old := checks[id]
		checks[id] = func(r *mc.Runner) {
			old(r)
			f(r)
		}
	}
	enc := func(check func(agentx.Pdu, *mc.Worker) string) func(r *mc.Runner) {
		return func(r *mc.Runner) { typicalPdus(r, bound(r, 1, 2), check) }
	}
	add("C01", enc(checkBytes))
	add("C02", enc(checkRoundTrip))
	add("C03", enc(checkVerdict))
	add("C05", enc(wire(checkPayload)))
	add("C25", enc(wire(relay)))
	slow := func(check ...func(agentx.Pdu, *mc.Worker) string) func(r *mc.Runner) {
		return func(r *mc.Runner) {
			typicalPdus(r, bound(r, 0, 1), func(p agentx.Pdu, w *mc.Worker) string {
				for _, f := range check {
					if m := f(p, w); m != "" {
						return m
					}
				}
				return ""
			})
		}
	}
	add("C07", slow(checkEncodeDbg, wire(checkPayloadDbg)))
	add("C23", slow(func(p agentx.Pdu, w *mc.Worker) string { _, m := renderCase(w, p, 1); return m }))
	add("C26", slow(encodeLog, wire(payloadLog)))
}

// wire makes a check of payload bytes one of PDUs.
func wire(check payloadCase) func(agentx.Pdu, *mc.Worker) string {
	return func(p agentx.Pdu, w *mc.Worker) string {
		b := ref.Encode(p)
		h := header(byte(p.Tag), byte(p.Flags), len(b)-20)
		h.SessionId, h.TransactionId, h.PacketId = p.SessionId, p.TransactionId, p.PacketId
		return check(h, b[20:], w)
	}
}

func typicalPdus(r *mc.Runner, size int, check func(agentx.Pdu, *mc.Worker) string) {
	var tfs []tf
	for _, x := range tagFlags {
		if rest := ref.Types[x.tag].Flags &^ (ref.FNbo | ref.FCtx); x.tag != 18 || x.flags&rest == 0 || x.flags&rest == rest && size == 2 {
			tfs = append(tfs, x)
		}
	}
	r.Explore("combinations of all fields", len(tfs), 0, func(sh int, c *mc.Ctx) string {
		return check(typical(c, tfs[sh].tag, tfs[sh].flags, size), c.W)
	})
}

var (
	typOidA   = []uint32{1, 3, 6, 1, 2, 1, 7}
	typOidB   = []uint32{1, 3, 6, 1, 4, 1, 9999, 5}
	typRanges = []agentx.SearchRange{{}, {StartOid: typOidA, EndOid: typOidB, StartIncluded: 1}, {StartOid: typOidA}, {StartOid: typOidB, EndOid: typOidA},
		{StartOid: typOidA, EndOid: typOidA, StartIncluded: 1}, {EndOid: typOidB, StartIncluded: 1}, {StartOid: typOidA[:6], EndOid: typOidA}, {StartOid: []uint32{2, 5}, EndOid: []uint32{1, 3, 6, 1}}}
	typVarbinds = []asn.Varbind{vb(2, typOidA, int32(-5)), vb(4, typOidB, "text"), vb(5, typOidA, nil), vb(6, typOidA, typOidA), vb(130, typOidB, nil), vb(68, nil, []byte{1, 2, 3}), vb(70, typOidB[:4], uint64(1<<40+3)),
		vb(4, typOidA, ""), vb(64, typOidA, [4]byte{127, 0, 0, 1}), vb(65, typOidB, uint32(0xffffffff)), vb(66, typOidB, uint32(0)), vb(67, typOidA[:5], uint32(1)), vb(128, typOidA, nil), vb(129, []uint32{1}, nil),
		vb(6, nil, []uint32(nil)), vb(2, typOidB, int32(0)), vb(4, typOidB, "12345"), vb(68, typOidB, []byte(nil))}
	typTexts = []string{"", "a", "abcd", "public"}
	typOids  = [][]uint32{nil, typOidB, typOidA[:5], typOidA[:4], {2, 5}, {0, 0}}
)

func typical(c *mc.Ctx, tag, flags byte, size int) agentx.Pdu {
	ti := ref.Types[tag]
	p := agentx.Pdu{Tag: agentx.PduTag(tag), Flags: agentx.Flags(flags), Params: agentx.NoParams{}}
	ids := mc.PickOf(c, [][3]uint32{{1, 2, 3}, {}, {7, 7, 0xffffffff}}[:[]int{2, 3, 3}[size]])
	p.SessionId, p.TransactionId, p.PacketId = ids[0], ids[1], ids[2]
	if flags&ref.FCtx != 0 {
		p.Context = mc.PickOf(c, typTexts[:[]int{2, 3, 4}[size]])
	}
	switch ti.Kind {
	case ref.KOpen:
		p.Params = agentx.OpenParams{Timeout: mc.PickOf(c, []byte{0, 5, 255}), Oid: mc.PickOf(c, typOids), Description: mc.PickOf(c, typTexts)}
	case ref.KClose:
		p.Params = agentx.CloseParams{Reason: agentx.CloseReason(c.Pick(9))}
	case ref.KRegister, ref.KUnregister:
		x := agentx.RegisterParams{Priority: mc.PickOf(c, []byte{127, 0, 255})}
		if ti.Kind == ref.KRegister {
			x.Timeout = mc.PickOf(c, []byte{0, 60})
		}
		x.Subtree = mc.PickOf(c, [][]uint32{typOidA, typOidB, typOidA[:5], typOidA[:4], {9}, nil})
		x.RangeSubid = byte(c.Pick(len(x.Subtree) + 2))
		at := uint32(4)
		if i := int(x.RangeSubid) - 1; i >= 0 && i < len(x.Subtree) {
			at = x.Subtree[i]
		}
		x.UpperBound = mc.PickOf(c, []uint32{at + 1, at, at - 1, 0, 0xffffffff})
		p.Params = x
		if ti.Kind == ref.KUnregister {
			p.Params = agentx.UnregisterParams{Priority: x.Priority, RangeSubid: x.RangeSubid, Subtree: x.Subtree, UpperBound: x.UpperBound}
		}
	case ref.KBulk:
		p.Params = agentx.GetBulkParams{NonRepeaters: mc.PickOf(c, []int16{0, 1, 2, 3, 32767}), MaxRepeatitions: mc.PickOf(c, []int16{0, 1, 2, 10, 32767})}
	case ref.KAddCaps:
		p.Params = agentx.AddAgentCapsParams{Oid: mc.PickOf(c, typOids), Description: mc.PickOf(c, typTexts)}
	case ref.KRemoveCaps:
		p.Params = agentx.RemoveAgentCapsParams{Oid: mc.PickOf(c, typOids)}
	case ref.KResponse:
		e := []uint16{0, 5, 18, 257, 1, 2, 13, 256, 268, 0xffff}
		p.Params = agentx.ResponseParams{SysUpTime: mc.PickOf(c, []uint32{0, 0xffffffff}), Error: pduerror.Error(mc.PickOf(c, e[:[]int{4, 10, 10}[size]])),
			Index: mc.PickOf(c, []int16{0, 1, 2, 3, 4, -1})}
	}
	if ti.Ranges {
		for i, n := 0, c.Pick([]int{3, 4, 4}[size]); i < n; i++ {
			p.Ranges = append(p.Ranges, mc.PickOf(c, typRanges))
		}
	}
	if ti.Varbinds {
		n := c.Pick([]int{3, 4, 4}[size])
		menu := typVarbinds
		switch {
		case n == 2 && size == 0:
			menu = menu[:7]
		case n == 3:
			menu = menu[:[]int{0, 7, 14}[size]]
		}
		for i := 0; i < n; i++ {
			p.Varbinds = append(p.Varbinds, mc.PickOf(c, menu))
		}
	}
	return p
}
