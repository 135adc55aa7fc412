package main

import (
	"bytes"
	"fmt"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/hex"

	"verif/mc"
	"verif/ref"
)

// Explorations of arguments that share memory with each other: parts of one
// array, with the same start and other lengths, or overlapping. Results depend
// on the contents only.

func init() {
	add := func(id string, f func(r *mc.Runner)) {
		old := checks[id]
		checks[id] = func(r *mc.Runner) {
			if old != nil {
				old(r)
			}
			f(r)
		}
	}
	add("C01", func(r *mc.Runner) { aliasPdus(r, checkBytes) })
	add("C02", func(r *mc.Runner) { aliasPdus(r, checkRoundTrip) })
	add("C03", func(r *mc.Runner) { aliasPdus(r, checkVerdict) })
	add("C07", func(r *mc.Runner) { aliasPdus(r, checkEncodeDbg) })
	add("C08", func(r *mc.Runner) { aliasPdus(r, aliasUntouched) })
	add("C08", moreBehind)
	add("C23", func(r *mc.Runner) {
		aliasPdus(r, func(p agentx.Pdu, w *mc.Worker) string { _, m := renderCase(w, p, 1); return m })
	})
	add("C26", func(r *mc.Runner) { aliasPdus(r, encodeLog) })
	add("C11", func(r *mc.Runner) {
		aliasOids(r, func(a, b []uint32, w *mc.Worker) string { return cmpCase(a, b, w) })
	})
	add("C12", func(r *mc.Runner) {
		aliasOids(r, func(a, b []uint32, w *mc.Worker) string { return textCase(a, w) + textCase(b, w) })
	})
	add("C13", func(r *mc.Runner) { aliasOids(r, copyCase) })
	add("C14", aliasTree)
	add("C15", aliasNext)
	add("C18", func(r *mc.Runner) {
		aliasBytes(r, func(a, b []byte, w *mc.Worker) string {
			n := len(b) / 2
			return dumpCase(w, "Dump", hex.Dump("p", a), refDump("p", a, 0, len(a))) + dumpCase(w, "DumpTail", hex.DumpTail("  ", b, n), refDump("  ", b, len(b)-n, len(b)))
		})
	})
	add("C19", func(r *mc.Runner) {
		aliasBytes(r, func(a, b []byte, w *mc.Worker) string { return diffCase(w, a, b) })
	})
	add("C28", aliasStrings)
}

// parts gives the parts of x with the given starts and lengths.
func parts[T any](x []T, starts, lens []int) (out [][]T) {
	for _, i := range starts {
		for _, n := range lens {
			if i+n <= len(x) {
				out = append(out, x[i:i+n])
			}
		}
	}
	return
}

func aliasPdus(r *mc.Runner, check func(agentx.Pdu, *mc.Worker) string) {
	const text = "shared text\x00of some length"
	r.Explore1("parts of the same memory", 7, 0, func(sh int, c *mc.Ctx) string {
		base := longOid([]uint32{1, 3, 6, 1, 4, 1, 3, 6, 1, 4, 1, 3, 6, 1, 2}, 150)
		mem := append([]uint32(nil), base...)
		raw := []byte("shared bytes of some length")
		ps := parts(mem, []int{0, 5, 6}, []int{0, 1, 4, 5, 6, 7})
		if sh == 6 {
			ps = parts(mem, []int{0, 1}, []int{5, 127, 128, 129, 132, 133, 134})
		}
		var bs [][]byte
		bs = append(bs, parts(raw, []int{0, 4}, []int{0, 1, 3, 4, 5, 8})...)
		nbo := agentx.Flags(sh & 1 * ref.FNbo)
		try := func(p agentx.Pdu) string {
			p.Flags |= nbo
			p.SessionId, p.TransactionId, p.PacketId = 1, 2, 3
			if p.Params == nil {
				p.Params = agentx.NoParams{}
			}
			if m := check(p, c.W); m != "" {
				return "OIDs and values are parts of the same memory: " + m
			}
			if !ref.OidEq(mem, base) {
				return "the memory of the OIDs was modified"
			}
			return ""
		}
		switch sh {
		case 0, 1, 6: // three varbinds, one of them with an OID as value
			for _, x := range ps {
				for _, y := range ps {
					for k, z := range ps {
						vs := []asn.Varbind{vb(2, x, int32(k)), vb(6, y, z), vb(65, z, uint32(k)), vb(5, x, nil)}
						if m := try(agentx.Pdu{Tag: []agentx.PduTag{8, 12}[k&1], Varbinds: vs[k%3 : 3+k&1]}); m != "" {
							return m
						}
					}
				}
			}
		case 2, 3: // ranges
			for _, x := range ps {
				for _, y := range ps {
					for k, z := range ps {
						rs := []agentx.SearchRange{{StartOid: x, EndOid: y, StartIncluded: byte(k & 1)}, {StartOid: y, EndOid: z}, {StartOid: z, EndOid: x, StartIncluded: 1}}
						if m := try(agentx.Pdu{Tag: []agentx.PduTag{5, 6}[k&1], Ranges: rs[k%2 : 2+k%2]}); m != "" {
							return m
						}
					}
				}
			}
		case 4, 5: // strings and bytes
			for i := range bs {
				for j := range bs {
					for k := range bs {
						s := text[:len(bs[j])]
						vs := []asn.Varbind{vb(68, mem[:5], bs[i]), vb(4, mem[:6], s), vb(68, mem[:7], bs[j]), vb(4, mem[:7], text[:len(bs[k])]), vb(68, nil, bs[k])}
						if m := try(agentx.Pdu{Tag: 18, Flags: agentx.Flags(k & 1 * ref.FCtx), Context: text[:len(bs[i])], Params: agentx.ResponseParams{}, Varbinds: vs}); m != "" {
							return m
						}
						if m := try(agentx.Pdu{Tag: 16, Flags: ref.FCtx, Context: s, Params: agentx.AddAgentCapsParams{Oid: ps[k%len(ps)], Description: text[:len(bs[i])]}}); m != "" {
							return m
						}
					}
				}
			}
			if string(raw) != "shared bytes of some length" {
				return "the memory of the Opaque values was modified"
			}
		}
		return ""
	})
}

// aliasUntouched compares with the encoding of a copy that shares nothing.
func aliasUntouched(p agentx.Pdu, w *mc.Worker) string {
	w.Step(2)
	q := ref.Copy(p)
	want, wok := agentx.EncodePdu(q)
	got, ok := agentx.EncodePdu(p)
	if ok != wok || ok && !bytes.Equal(got, want) {
		return fmt.Sprintf("EncodePdu of %s gives %v %s, with arguments that share nothing %v %s", ref.Show(p), ok, hexs(got), wok, hexs(want))
	}
	if d := ref.Diff(p, q); d != "" {
		return "EncodePdu modifies the PDU: " + d
	}
	return ""
}

// moreBehind decodes the first bytes of a frame while the rest of it, or other
// bytes, lie behind them in the same memory.
func moreBehind(r *mc.Runner) {
	ps := menu()
	r.Explore("more bytes behind the data", len(ps), 0, func(sh int, c *mc.Ctx) string {
		f, ok := freshEncode(ps[sh])
		if !ok || len(f) < 20 {
			return ""
		}
		for k := 0; k < 3; k++ {
			mem := append(append([]byte(nil), f...), f...)
			if k > 0 {
				mem = append(append([]byte(nil), f...), bytes.Repeat([]byte{byte(k - 1)}, 64)...)
			}
			keep := append([]byte(nil), mem...)
			for n := 0; n <= 20; n++ {
				for dbg := 0; dbg < 2; dbg++ {
					ok := false
					if c.W.Step(1); dbg == 0 {
						_, ok = agentx.DecodePduHeader(mem[:n])
					} else {
						_, ok = agentx.DecodePduHeaderDbg(mem[:n], &discard{})
					}
					if ok != (n == 20) {
						return fmt.Sprintf("DecodePduHeader (debug %v) of the first %d bytes of %s gives %v", dbg == 1, n, hexs(mem), ok)
					}
				}
			}
			h, ok := agentx.DecodePduHeader(f[:20:20])
			if !ok {
				return ""
			}
			for n := 0; n <= len(mem)-20; n++ {
				want := h
				want.PayloadSize = int32(n)
				wok := agentx.DecodePduPayload(&want, append(make([]byte, 0, n), keep[20:20+n]...)[:n:n])
				for dbg := 0; dbg < 2; dbg++ {
					got := h
					got.PayloadSize = int32(n)
					ok := false
					if c.W.Step(1); dbg == 0 {
						ok = agentx.DecodePduPayload(&got, mem[20:20+n])
					} else {
						ok = agentx.DecodePduPayloadDbg(&got, mem[20:20+n], &discard{})
					}
					d := ""
					if ok && wok {
						d = ref.Diff(got, want)
					}
					if ok != wok || d != "" {
						return fmt.Sprintf("DecodePduPayload (debug %v) of %s with more bytes behind it gives %v (%s), without them %v", dbg == 1, hexs(mem[20:20+n]), ok, d, wok)
					}
				}
			}
			if !bytes.Equal(mem, keep) {
				return "decoding modifies the data or the memory behind it"
			}
		}
		c.W.State(mc.NewHash().Str("behind").U(uint64(sh)).Sum())
		return ""
	})
}

func aliasOids(r *mc.Runner, check func(a, b []uint32, w *mc.Worker) string) {
	base := longOid([]uint32{1, 2, 1, 2, 1, 2, 1, 2, 1, 3, 1}, 140)
	lens := []int{0, 1, 2, 3, 4, 5, 8, 16, 32, 33, 64, 100, 127, 128}
	n := len(parts(base, []int{0, 1, 2, 4}, lens))
	r.Explore1("parts of the same memory", n, 0, func(sh int, c *mc.Ctx) string {
		mem := append([]uint32(nil), base...)
		ps := parts(mem, []int{0, 1, 2, 4}, lens)
		for _, b := range ps {
			if s := check(ps[sh], b, c.W); s != "" {
				return "arguments are parts of the same memory: " + s
			}
			if !ref.OidEq(mem, base) {
				return "the memory of the arguments was modified"
			}
		}
		c.W.State(mc.NewHash().Str("alias").U(uint64(sh)).Sum())
		return ""
	})
}

func aliasBytes(r *mc.Runner, check func(a, b []byte, w *mc.Worker) string) {
	base := []byte("abababababcabababababcab")
	lens := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 13, 16}
	starts := []int{0, 1, 2, 4, 5, 8}
	n := len(parts(base, starts, lens))
	r.Explore1("parts of the same memory", n, 0, func(sh int, c *mc.Ctx) string {
		mem := append([]byte(nil), base...)
		ps := parts(mem, starts, lens)
		for _, b := range ps {
			if s := check(ps[sh], b, c.W); s != "" {
				return "arguments are parts of the same memory: " + s
			}
			if string(mem) != string(base) {
				return "the memory of the arguments was modified"
			}
		}
		c.W.State(mc.NewHash().Str("alias").U(uint64(sh)).Sum())
		return ""
	})
}

func aliasStrings(r *mc.Runner) {
	const text = "aabaaabaabaabaaaabaaaabaaaaab"
	r.Explore1("parts of the same string", 1, 0, func(sh int, c *mc.Ctx) string {
		var ss []string
		for i := 0; i < 12; i++ {
			for j := i; j <= len(text); j++ {
				ss = append(ss, text[i:j])
			}
		}
		return minMax(c, ss)
	})
}

// aliasTree adds and removes parts of one array.
func aliasTree(r *mc.Runner) {
	base := []uint32{1, 2, 1, 2, 1, 3}
	starts, lens := []int{0, 2, 3}, []int{1, 2, 3}
	n := 2*len(parts(base, starts, lens)) + 1
	r.Explore("parts of the same memory", n, 0, func(sh int, c *mc.Ctx) string {
		mem := append([]uint32(nil), base...)
		ps := parts(mem, starts, lens)
		x := newTM(c.W, ps)
		x.raw = true
		for k := 0; k < 4; k++ {
			op := sh
			if k > 0 {
				op = c.Pick(n)
			}
			m := ""
			switch {
			case op == n-1:
				m = x.clear()
			case op%2 == 0:
				m = x.add(ps[op/2])
			default:
				m = x.remove(ps[op/2])
			}
			if m == "" {
				m = x.check()
			}
			if m == "" && !ref.OidEq(mem, base) {
				m = "the memory of the arguments was modified"
			}
			if m != "" {
				return x.say("arguments are parts of the same memory: " + m)
			}
		}
		return ""
	})
}

func aliasNext(r *mc.Runner) {
	base := []uint32{1, 2, 1, 2, 1, 3}
	starts, lens := []int{0, 1, 2, 3, 4}, []int{0, 1, 2, 3, 4}
	n := len(parts(base, starts, lens))
	r.Explore("parts of the same memory", n*n, 0, func(sh int, c *mc.Ctx) string {
		mem := append([]uint32(nil), base...)
		ps := parts(mem, starts, lens)
		x := newTM(c.W, ps)
		x.raw = true
		if x.add(ps[sh%n]) != "" || x.add(ps[sh/n]) != "" || x.add([]uint32{1, 2, 5}) != "" {
			return ""
		}
		ls := x.leaves()
		for _, a := range ps {
			for _, b := range ps {
				for _, incl := range []bool{false, true} {
					if m := nextCase(x, ls, a, b, incl); m != "" {
						return "arguments are parts of the same memory: " + m
					}
				}
			}
		}
		if !ref.OidEq(mem, base) {
			return "the memory of the arguments was modified"
		}
		return ""
	})
}
