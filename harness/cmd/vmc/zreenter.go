package main

import (
	"fmt"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/hex"
	"github.com/alexispb/mygosnmp/oid"

	"verif/mc"
	"verif/ref"
)

// Calls made while another call is in progress in the same goroutine: a log
// that uses the library for each of its records, an enumeration function that
// uses the tree it is called from.

func init() {
	add := func(id string, f func(r *mc.Runner)) {
		old := checks[id]
		checks[id] = func(r *mc.Runner) {
			old(r)
			f(r)
		}
	}
	add("C07", func(r *mc.Runner) { reenter(r, false) })
	add("C26", func(r *mc.Runner) { reenter(r, true) })
	add("C16", nested)
}

// busyLog makes a call for every record.
type busyLog struct {
	keep
	call func()
}

func (b *busyLog) Write(s string)            { b.keep.Write(s); b.call() }
func (b *busyLog) Writef(f string, a ...any) { b.keep.Writef(f, a...); b.call() }

func inners() (out []func()) {
	o := []uint32{1, 3, 6, 1, 9, 9, 9}
	for i := 0; i < 2; i++ {
		f := agentx.Flags(i * ref.FNbo)
		p := agentx.Pdu{Tag: 12, Flags: f | ref.FCtx, SessionId: 0x99, Context: "inner", Params: agentx.NoParams{}, Varbinds: []asn.Varbind{vb(4, o, "inner value"), vb(6, o, o), vb(68, o, []byte{1, 2, 3})}}
		q := agentx.Pdu{Tag: 5, Flags: f, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: o, EndOid: o, StartIncluded: 1}}}
		for _, p := range []agentx.Pdu{p, q} {
			b := ref.Encode(p)
			dec := func(n int) {
				if h, ok := agentx.DecodePduHeader(b[:20]); ok {
					agentx.DecodePduPayload(&h, b[20:n])
				}
			}
			decDbg := func(n int) {
				if h, ok := agentx.DecodePduHeaderDbg(b[:20], &discard{}); ok {
					h.PayloadSize = int32(n - 20)
					agentx.DecodePduPayloadDbg(&h, b[20:n], &discard{})
				}
			}
			out = append(out, func() { agentx.EncodePdu(p) }, func() { agentx.EncodePduDbg(p, &discard{}) }, func() { dec(len(b)) }, func() { decDbg(len(b)) },
				func() { decDbg(len(b) - 3) }, func() { _ = p.String(2) })
		}
	}
	bad := agentx.Pdu{Tag: 12, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{vb(4, o, 5)}}
	return append(out, func() { agentx.EncodePduDbg(bad, &discard{}) }, func() { hex.Dump("", []byte{1, 2, 3, 4, 5}); hex.DumpDiff([]byte{1}, []byte{2}) }, func() { oid.String(o); oid.Parse("1.2.3") })
}

func reenter(r *mc.Runner, logs bool) {
	ps, in := menu(), inners()
	o := []uint32{1, 3, 6, 1, 2, 1}
	ps = append(ps, agentx.Pdu{Tag: 12, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{vb(4, o, "a"), vb(4, o, 5)}},
		agentx.Pdu{Tag: 5, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: o}, {EndOid: longOid(nil, 140)}}}, agentx.Pdu{Tag: 99}, agentx.Pdu{Tag: 12, Flags: 0xff, Params: agentx.NoParams{}})
	r.Explore1("calls from the log", len(ps), 0, func(sh int, c *mc.Ctx) string {
		p := ps[sh]
		// each case makes a debug call with the log
		var cases []func(l *busyLog) string
		cases = append(cases, func(l *busyLog) string {
			b, ok := agentx.EncodePduDbg(p, l)
			a, oka := agentx.EncodePdu(p)
			if ok != oka || ok && string(a) != string(b) {
				return fmt.Sprintf("EncodePduDbg of %s gives %s (ok=%v), EncodePdu %s (ok=%v)", brief(ref.Show(p)), hexs(b), ok, hexs(a), oka)
			}
			return ""
		})
		if ref.Representable(p) {
			b := ref.Encode(p)
			for _, n := range []int{len(b), len(b) - 1, 20 + (len(b)-20)/2} {
				if n < 20 {
					continue
				}
				cases = append(cases, func(l *busyLog) string {
					h, ok := agentx.DecodePduHeaderDbg(b[:20], l)
					g, okg := agentx.DecodePduHeader(b[:20])
					if ok != okg || ref.Diff(h, g) != "" {
						return fmt.Sprintf("DecodePduHeaderDbg of %s gives ok=%v %s", hexs(b[:20]), ok, ref.Diff(h, g))
					}
					h.PayloadSize, g.PayloadSize = int32(n-20), int32(n-20)
					ok, okg = agentx.DecodePduPayloadDbg(&h, b[20:n], l), agentx.DecodePduPayload(&g, b[20:n])
					if ok != okg || ok && ref.Diff(h, g) != "" {
						return fmt.Sprintf("DecodePduPayloadDbg of %s gives ok=%v %s", hexs(b[:n]), ok, ref.Diff(h, g))
					}
					return ""
				})
			}
		}
		for _, f := range cases {
			plain := &busyLog{call: func() {}}
			f(plain)
			for k := range in {
				l := &busyLog{call: in[k]}
				m := f(l)
				c.W.Step(len(l.recs))
				if !logs && m != "" {
					return fmt.Sprintf("with a log that makes call %d for each record: %s", k, m)
				}
				if logs && m == "" && fmt.Sprintf("%q", l.recs) != fmt.Sprintf("%q", plain.recs) {
					for i := range l.recs {
						if i >= len(plain.recs) || l.recs[i] != plain.recs[i] {
							return fmt.Sprintf("with a log that makes call %d for each record, record %d is %q", k, i, brief(l.recs[i]))
						}
					}
					return "records are missing in the log"
				}
			}
		}
		c.W.State(mc.NewHash().Str("reenter").U(uint64(sh)).Sum())
		return ""
	})
}

// nested enumerates, looks up and gets next from within an enumeration.
func nested(r *mc.Runner) {
	alpha := []uint32{1, 3}
	all := universe(alpha, 3)
	chunked(r, "calls from the function", forests(len(alpha), 3), func(k int64, c *mc.Ctx) string {
		what := c.Pick(4)
		x := newTM(c.W, nil)
		x.noLog = true
		if m := x.build(nodesOf(alpha, 3, k), all, int(k)%4); m != "" {
			return "" // C14
		}
		ls := x.leaves()
		msg := ""
		var each func(depth int)
		each = func(depth int) {
			i := 0
			x.t.ForRangeLeaves(func(q []uint32, n *oid.Node) {
				x.w.Step(1)
				if msg == "" && (i >= len(ls) || n != ls[i].p || !ref.OidEq(q, ls[i].o)) {
					msg = fmt.Sprintf("call %d of enumeration %d is for %s", i+1, depth, ostr(q))
				}
				i++
				switch {
				case depth == 2:
				case what == 0:
					each(2)
				case what == 1:
					x.t.GetNode(q)
					x.t.GetNode([]uint32{1, 3, 9})
				case what == 2:
					x.t.GetNextNode(q, nil, false)
				case what == 3:
					y := oid.NewTree()
					y.AddNode([]uint32{9, 9, 9, 9})
					y.ForRangeLeaves(func(q []uint32, n *oid.Node) { q[0] = 8 })
				}
				if msg == "" && (i > len(ls) || !ref.OidEq(q, ls[i-1].o)) {
					msg = fmt.Sprintf("the OID of call %d of enumeration %d changed to %s by a call from the function", i, depth, ostr(q))
				}
			})
			if msg == "" && i != len(ls) {
				msg = fmt.Sprintf("the function was called for %d of %d leaves", i, len(ls))
			}
		}
		each(1)
		if msg != "" {
			return fmt.Sprintf("with %s from the function: %s", []string{"another enumeration", "lookups", "get-next", "another tree"}[what], msg)
		}
		return ""
	})
}
