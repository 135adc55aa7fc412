package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"strconv"
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/hex"
	"github.com/alexispb/mygosnmp/ipa"
	"github.com/alexispb/mygosnmp/oid"
	"github.com/alexispb/mygosnmp/pduerror"

	"verif/mc"
	"verif/ref"
)

// Explorations of state that outlives a call: the same memory passed again
// with other contents (results must follow the contents, not the address), and
// the first calls of a new process (results must not depend on what ran
// before). They run in one goroutine, so that no other call interferes.

func init() {
	add := func(id string, f func(r *mc.Runner)) {
		old := checks[id]
		checks[id] = func(r *mc.Runner) {
			if old != nil {
				old(r)
			}
			f(r)
		}
	}
	noDepth := func(p agentx.Pdu, w *mc.Worker) string { _, m := renderCase(w, p, 1); return m }
	add("C01", func(r *mc.Runner) { reusePdus(r, checkBytes) })
	add("C02", func(r *mc.Runner) { reusePdus(r, checkRoundTrip) })
	add("C03", func(r *mc.Runner) { reusePdus(r, checkVerdict) })
	add("C04", func(r *mc.Runner) {
		reuseHeaders(r, func(b []byte, w *mc.Worker) string { w.Step(1); return checkHeader(b) })
	})
	add("C05", func(r *mc.Runner) { reusePayloads(r, checkPayload) })
	add("C07", func(r *mc.Runner) {
		reusePdus(r, checkEncodeDbg)
		reuseHeaders(r, checkHeaderDbg)
		reusePayloads(r, checkPayloadDbg)
	})
	add("C08", reuseFresh)
	add("C11", func(r *mc.Runner) {
		reuseOids(r, func(a, b []uint32, w *mc.Worker) string { return cmpCase(a, b, w) })
	})
	add("C12", func(r *mc.Runner) {
		reuseOids(r, func(a, b []uint32, w *mc.Worker) string { return textCase(a, w) + textCase(b, w) })
	})
	add("C13", func(r *mc.Runner) { reuseOids(r, copyCase) })
	add("C15", func(r *mc.Runner) { reuseNext(r) })
	add("C18", func(r *mc.Runner) {
		reuseBytes(r, func(a, b []byte, w *mc.Worker) string {
			if m := dumpCase(w, "Dump", hex.Dump("p", a), refDump("p", a, 0, len(a))); m != "" {
				return m
			}
			n := len(b) / 2
			if m := dumpCase(w, "DumpSub", hex.DumpSub("", b, 1, n), refDump("", b, 1, n)); m != "" {
				return m
			}
			return dumpCase(w, "DumpTail", hex.DumpTail("  ", b, n), refDump("  ", b, len(b)-n, len(b)))
		})
	})
	add("C19", func(r *mc.Runner) { reuseBytes(r, func(a, b []byte, w *mc.Worker) string { return diffCase(w, a, b) }) })
	add("C21", func(r *mc.Runner) {
		reuseOids(r, func(a, b []uint32, w *mc.Worker) string { return valueCase(w, 6, a) + valueCase(w, 6, b) })
		reuseBytes(r, func(a, b []byte, w *mc.Worker) string { return valueCase(w, 68, a) + valueCase(w, 68, b) })
	})
	add("C23", func(r *mc.Runner) { reusePdus(r, noDepth) })
	add("C25", func(r *mc.Runner) { reusePayloads(r, relay) })
	add("C26", func(r *mc.Runner) {
		reusePdus(r, encodeLog)
		reuseHeaders(r, headerLog)
		reusePayloads(r, payloadLog)
	})
	add("C27", func(r *mc.Runner) {
		reuseOids(r, func(a, b []uint32, w *mc.Worker) string {
			w.Step(3)
			var sb strings.Builder
			rg, v := agentx.SearchRange{StartOid: a, EndOid: b}, vb(6, a, b)
			oid.Fprint(&sb, a)
			rg.Fprint(&sb)
			v.Fprint(&sb)
			if want := oid.String(a) + rg.String() + v.String(); sb.String() != want {
				return fmt.Sprintf("Fprint of an OID, a range and a varbind gives %q, String %q", sb.String(), want)
			}
			return ""
		})
	})
	for id := range firstCases() {
		add(id, firstCalls)
	}
}

// house gives the slices of PDUs fixed addresses: the n-th slice of every PDU
// put into it lies in the same array.
type house struct {
	o [][]uint32
	b [][]byte
	r []agentx.SearchRange
	v []asn.Varbind
}

func (h *house) put(p agentx.Pdu) agentx.Pdu {
	no, nb := 0, 0
	o := func(x []uint32) []uint32 {
		if no == len(h.o) {
			h.o = append(h.o, make([]uint32, 160))
		}
		a := h.o[no][:len(x)]
		copy(a, x)
		no++
		return a
	}
	q := p
	switch x := p.Params.(type) {
	case agentx.OpenParams:
		x.Oid = o(x.Oid)
		q.Params = x
	case agentx.RegisterParams:
		x.Subtree = o(x.Subtree)
		q.Params = x
	case agentx.UnregisterParams:
		x.Subtree = o(x.Subtree)
		q.Params = x
	case agentx.AddAgentCapsParams:
		x.Oid = o(x.Oid)
		q.Params = x
	case agentx.RemoveAgentCapsParams:
		x.Oid = o(x.Oid)
		q.Params = x
	}
	if h.r == nil {
		h.r, h.v = make([]agentx.SearchRange, 20), make([]asn.Varbind, 20)
	}
	q.Ranges, q.Varbinds = h.r[:len(p.Ranges)], h.v[:len(p.Varbinds)]
	for i, r := range p.Ranges {
		r.StartOid, r.EndOid = o(r.StartOid), o(r.EndOid)
		q.Ranges[i] = r
	}
	for i, v := range p.Varbinds {
		v.Oid = o(v.Oid)
		switch y := v.Value.(type) {
		case []uint32:
			v.Value = o(y)
		case []byte:
			if nb == len(h.b) {
				h.b = append(h.b, make([]byte, 64))
			}
			a := h.b[nb][:len(y)]
			copy(a, y)
			nb++
			v.Value = a
		}
		q.Varbinds[i] = v
	}
	return q
}

// editions are PDUs that differ from p in contents or lengths of its slices,
// in values or in the byte order.
func editions(p agentx.Pdu) (out []agentx.Pdu) {
	edit := func(o func([]uint32), b func([]byte)) {
		q := ref.Copy(p)
		eachSlice(&q, o, b)
		out = append(out, q)
	}
	at := func(i int, d uint32) {
		edit(func(o []uint32) {
			if i < 0 && len(o) > 0 {
				o[len(o)-1] += d
			} else if i >= 0 && i < len(o) {
				o[i] += d
			}
		}, func(b []byte) {
			if i < 0 && len(b) > 0 {
				b[len(b)-1] += byte(d)
			} else if i >= 0 && i < len(b) {
				b[i] += byte(d | d>>28)
			}
		})
	}
	out = append(out, ref.Copy(p))
	at(0, 1)
	at(-1, 1)
	at(2, 1<<31)
	at(4, 1)
	at(4, 300)
	q := ref.Copy(p)
	switch x := q.Params.(type) {
	case agentx.OpenParams:
		x.Oid = x.Oid[:max(0, len(x.Oid)-1)]
		x.Timeout++
		q.Params = x
	case agentx.RegisterParams:
		x.Subtree = x.Subtree[:max(0, len(x.Subtree)-1)]
		x.UpperBound++
		q.Params = x
	case agentx.UnregisterParams:
		x.Subtree = x.Subtree[:max(0, len(x.Subtree)-1)]
		x.Priority++
		q.Params = x
	case agentx.AddAgentCapsParams:
		x.Oid = x.Oid[:max(0, len(x.Oid)-1)]
		x.Description += "!"
		q.Params = x
	case agentx.RemoveAgentCapsParams:
		x.Oid = longOid(x.Oid, 140)
		q.Params = x
	}
	for i := range q.Ranges {
		if n := len(q.Ranges[i].StartOid); n > 0 {
			q.Ranges[i].StartOid = q.Ranges[i].StartOid[:n-1]
		}
		q.Ranges[i].StartIncluded ^= 1
	}
	for i := range q.Varbinds {
		if n := len(q.Varbinds[i].Oid); n > 0 {
			q.Varbinds[i].Oid = q.Varbinds[i].Oid[:n-1]
		}
		switch y := q.Varbinds[i].Value.(type) {
		case []byte:
			q.Varbinds[i].Value = y[:max(0, len(y)-1)]
		case int32:
			q.Varbinds[i].Value = y + 1
		case uint32:
			q.Varbinds[i].Value = y ^ 1<<31
		case uint64:
			q.Varbinds[i].Value = y ^ 1<<40
		case string:
			q.Varbinds[i].Value = y[min(1, len(y)):] + "?"
		case [4]byte:
			y[3]++
			q.Varbinds[i].Value = y
		}
	}
	out = append(out, q)
	q = ref.Copy(p)
	q.Flags ^= ref.FNbo
	out = append(out, q)
	q = ref.Copy(p)
	for i := range q.Ranges { // same memory, elements in another order
		q.Ranges[i] = ref.Copy(p).Ranges[len(p.Ranges)-1-i]
	}
	for i := range q.Varbinds {
		q.Varbinds[i] = ref.Copy(p).Varbinds[len(p.Varbinds)-1-i]
	}
	out = append(out, q)
	if n := len(p.Varbinds); n > 0 {
		q = ref.Copy(p)
		q.Varbinds[n-1] = vb(2, q.Varbinds[n-1].Oid, "mismatch")
		out = append(out, q)
		q = ref.Copy(p)
		q.Varbinds = q.Varbinds[:n-1]
		out = append(out, q)
	}
	if n := len(p.Ranges); n > 0 {
		q = ref.Copy(p)
		q.Ranges[n-1].EndOid = longOid([]uint32{9}, 150)
		out = append(out, q)
		q = ref.Copy(p)
		q.Ranges = q.Ranges[:n-1]
		out = append(out, q)
	}
	return
}

func reusePdus(r *mc.Runner, check func(agentx.Pdu, *mc.Worker) string) {
	m := menu()
	r.Explore1("same memory, another PDU", len(m), 0, func(sh int, c *mc.Ctx) string {
		es := editions(m[sh])
		var h house
		var last string
		for k, i := range deBruijn(len(es)) {
			p := h.put(es[i])
			if s := check(p, c.W); s != "" {
				return fmt.Sprintf("call %d with the same memory, before it %s: %s", k+1, last, s)
			}
			last = ref.Show(es[i])
		}
		c.W.State(mc.NewHash().Str("reuse").U(uint64(sh)).Sum())
		return ""
	})
}

// deBruijn lists the numbers below n so that every ordered pair occurs side by
// side.
func deBruijn(n int) (out []int) {
	for i := 0; i < n; i++ {
		out = append(out, i)
		for j := i + 1; j < n; j++ {
			out = append(out, i, j)
		}
	}
	return append(out, 0)
}

func reuseHeaders(r *mc.Runner, check func([]byte, *mc.Worker) string) {
	r.Explore1("same memory, another header", len(tagFlags1), 0, func(sh int, c *mc.Ctx) string {
		x := tagFlags1[sh]
		base := []byte{1, x.tag, x.flags, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 0, 0, 4, 0}
		buf := make([]byte, 20)
		for pos := range base {
			for _, d := range []byte{1, 0x10, 0x80, 0xff} {
				for k := 0; k < 3; k++ {
					copy(buf, base)
					if k == 1 {
						buf[pos] ^= d
					}
					if s := check(buf, c.W); s != "" {
						return "with the same memory again: " + s
					}
				}
			}
		}
		return ""
	})
}

func reusePayloads(r *mc.Runner, check payloadCase) {
	m := menu()
	r.Explore1("same memory, another payload", len(m), 0, func(sh int, c *mc.Ctx) string {
		full := ref.Encode(m[sh])
		h, base := m[sh], full[20:]
		h.PayloadSize = int32(len(base))
		h.Context, h.Params, h.Ranges, h.Varbinds = "", nil, nil, nil
		buf := make([]byte, len(base))
		for pos := range base {
			for _, d := range []byte{1, 0x80} {
				copy(buf, base)
				if s := check(h, buf, c.W); s != "" {
					return "with the same memory again: " + s
				}
				buf[pos] ^= d
				if s := check(h, buf, c.W); s != "" {
					return fmt.Sprintf("with the same memory again, byte %d changed: %s", pos, s)
				}
			}
		}
		return ""
	})
	var fs [][]byte
	big := 0
	for _, p := range m {
		fs = append(fs, ref.Encode(p))
		if n := len(fs[len(fs)-1]); n > big {
			big = n
		}
	}
	r.Explore1("one buffer for all payloads", 1, 0, func(sh int, c *mc.Ctx) string {
		buf := make([]byte, big)
		for _, i := range deBruijn(len(fs)) {
			h := m[i]
			h.PayloadSize = int32(len(fs[i]) - 20)
			h.Context, h.Params, h.Ranges, h.Varbinds = "", nil, nil, nil
			b := buf[:copy(buf, fs[i][20:])]
			if s := check(h, b, c.W); s != "" {
				return "with one buffer for all payloads: " + s
			}
		}
		return ""
	})
}

// reuseFresh compares with results computed beforehand from private copies.
func reuseFresh(r *mc.Runner) {
	m := menu()
	r.Explore1("same memory, another PDU", len(m), 0, func(sh int, c *mc.Ctx) string {
		es := editions(m[sh])
		want := make([][]byte, len(es))
		for i := range es {
			want[i], _ = freshEncode(es[i])
		}
		for _, dbg := range []bool{false, true} {
			var h house
			for k, i := range deBruijn(len(es)) {
				p := h.put(es[i])
				var got []byte
				var ok bool
				if dbg {
					got, ok = agentx.EncodePduDbg(p, &discard{})
				} else {
					got, ok = agentx.EncodePdu(p)
				}
				c.W.Step(1)
				if !ok {
					continue
				}
				if !bytes.Equal(got, want[i]) {
					return fmt.Sprintf("encoding %d of PDUs in the same memory gives %s, of a copy %s: %s", k+1, hexs(got), hexs(want[i]), ref.Show(es[i]))
				}
			}
		}
		return ""
	})
	r.Explore1("same memory, another payload", len(m), 0, func(sh int, c *mc.Ctx) string {
		base := ref.Encode(m[sh])
		type res struct {
			p  agentx.Pdu
			ok bool
		}
		orig := res{}
		orig.p, orig.ok = freshDecode(base)
		var mut []res
		for pos := 20; pos < len(base); pos++ {
			b := append([]byte(nil), base...)
			b[pos] ^= 1
			p, ok := freshDecode(b)
			mut = append(mut, res{p, ok})
		}
		buf := append([]byte(nil), base...)
		hold := agentx.Pdu{}
		for pos := 20; pos < len(base); pos++ {
			for k, want := range []res{orig, mut[pos-20], orig} {
				copy(buf, base)
				if k == 1 {
					buf[pos] ^= 1
				}
				h, ok := agentx.DecodePduHeader(buf[:20])
				ok = ok && agentx.DecodePduPayload(&h, buf[20:])
				c.W.Step(1)
				if ok != want.ok {
					return fmt.Sprintf("decoding %s from the same memory again reports ok=%v, a copy of it %v", hexs(buf), ok, want.ok)
				}
				if ok {
					if d := ref.Diff(h, want.p); d != "" {
						return fmt.Sprintf("decoding %s from the same memory again gives %s", hexs(buf), d)
					}
				}
				if k == 0 {
					hold = h
				} else if orig.ok {
					if d := ref.Diff(hold, orig.p); d != "" {
						return fmt.Sprintf("a PDU decoded before from the same memory changes: %s", d)
					}
				}
			}
		}
		return ""
	})
}

func reuseOids(r *mc.Runner, check func(a, b []uint32, w *mc.Worker) string) {
	var u [][]uint32
	for _, o := range [][]uint32{nil, {1}, {1, 3}, {1, 3, 6, 1, 4, 1, 7}, {1, 3, 6, 1, 4, 1, 8}, {1, 3, 6, 1, 4, 1, 7, 9}, {2, 3, 6, 1, 4, 1, 7}, {1, 3, 6, 1 << 31, 4, 1, 7}, {1, 3, 6, 1, 4, 1, 1 << 31}} {
		u = append(u, o)
	}
	long := longOid([]uint32{1, 3}, 100)
	long2 := append([]uint32(nil), long...)
	long2[50]++
	u = append(u, long, long2)
	seq := deBruijn(len(u))
	r.Explore1("same memory, another OID", len(u), 0, func(sh int, c *mc.Ctx) string {
		var ma, mb [130]uint32
		for k := range seq {
			a := ma[:copy(ma[:], u[seq[k]])]
			b := mb[:copy(mb[:], u[(seq[len(seq)-1-k]+sh)%len(u)])]
			if s := check(a, b, c.W); s != "" {
				return fmt.Sprintf("call %d with the same memory: %s", k+1, s)
			}
			c.W.State(mc.NewHash().Str("reuse").Str(ostr(a)).Str(ostr(b)).Sum())
		}
		return ""
	})
}

func copyCase(a, b []uint32, w *mc.Worker) string {
	w.Step(2)
	if c := oid.Clone(a); !ref.OidEq(c, a) {
		return fmt.Sprintf("Clone(%s) = %s", ostr(a), ostr(c))
	}
	if c := oid.Cat(a, b...); !ref.OidEq(c, append(append([]uint32{}, a...), b...)) {
		return fmt.Sprintf("Cat(%s, %s) = %s", ostr(a), ostr(b), ostr(c))
	}
	return ""
}

func reuseNext(r *mc.Runner) {
	u := [][]uint32{nil, {1}, {1, 1}, {1, 1, 1}, {1, 2}, {1, 3}, {2}, {2, 1}, {1, 2, 5}, {3}}
	seq := deBruijn(len(u))
	r.Explore1("same memory, another OID", len(u)*2, 0, func(sh int, c *mc.Ctx) string {
		x := newTM(c.W, u)
		for _, o := range [][]uint32{{1, 1, 1}, {1, 2}, {2, 1}, {2, 2}, {4}} {
			if x.add(o) != "" {
				return ""
			}
		}
		ls := x.leaves()
		var ma, mb [8]uint32
		for k := range seq {
			a := ma[:copy(ma[:], u[seq[k]])]
			b := mb[:copy(mb[:], u[(seq[len(seq)-1-k]+sh/2)%len(u)])]
			if s := nextCase(x, ls, a, b, sh%2 == 1); s != "" {
				return "with the same memory again: " + s
			}
			if k == len(seq)/2 { // and another tree behind the same memory
				if x.remove([]uint32{1, 2}) != "" || x.add([]uint32{1, 3}) != "" {
					return ""
				}
				ls = x.leaves()
			}
		}
		return ""
	})
}

func reuseBytes(r *mc.Runner, check func(a, b []byte, w *mc.Worker) string) {
	var u [][]byte
	base := []byte("0123456789abcdefghij0123456789ABCDEFGHIJ")
	u = append(u, base, base[:39], base[:4], base[:1], nil)
	for _, i := range []int{0, 3, 4, 20, 38, 39} {
		b := append([]byte(nil), base...)
		b[i] ^= 0x80
		u = append(u, b)
	}
	seq := deBruijn(len(u))
	r.Explore1("same memory, other bytes", len(u), 0, func(sh int, c *mc.Ctx) string {
		var ma, mb [64]byte
		for k := range seq {
			a := ma[:copy(ma[:], u[seq[k]])]
			b := mb[:copy(mb[:], u[(seq[len(seq)-1-k]+sh)%len(u)])]
			if s := check(a, b, c.W); s != "" {
				return fmt.Sprintf("call %d with the same memory: %s", k+1, s)
			}
		}
		return ""
	})
}

// --- the first calls of a process

// befores are calls that may come before the one that is checked.
func befores() []func() {
	o := []uint32{1, 3, 6, 1, 4, 1, 7}
	dec := func(i int, bad bool, dbg bool) {
		b := ref.Encode(menu()[i])
		if bad {
			b[len(b)-1] ^= 0x81
			b[23] = 0xff
		}
		if dbg {
			h, _ := agentx.DecodePduHeaderDbg(b[:20], &discard{})
			agentx.DecodePduPayloadDbg(&h, b[20:], &discard{})
			return
		}
		h, _ := agentx.DecodePduHeader(b[:20])
		agentx.DecodePduPayload(&h, b[20:])
	}
	return []func(){
		func() {},
		func() { agentx.EncodePdu(menu()[0]) },
		func() { agentx.EncodePdu(menu()[15]) },
		func() { agentx.EncodePdu(menu()[23]) },
		func() { agentx.EncodePdu(agentx.Pdu{}) },
		func() {
			agentx.EncodePdu(agentx.Pdu{Tag: 8, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{vb(2, o, "bad")}})
		},
		func() { agentx.EncodePduDbg(menu()[15], &discard{}) },
		func() { dec(15, false, false) },
		func() { dec(4, false, false) },
		func() { dec(15, true, false) },
		func() { dec(0, false, true) },
		func() { dec(9, true, true) },
		func() { _ = menu()[15].String(0) },
		func() { _ = oid.String(o); oid.Parse("1.3.6.1"); oid.Compare(o, o[:3]) },
		func() { func() { defer func() { recover() }(); oid.Parse("1..2") }() },
		func() { _ = agentx.PduTag(3).String() + agentx.PduTag(99).String() + agentx.Flags(255).String() },
		func() {
			_ = asn.Tag(4).String() + asn.Tag(99).String() + pduerror.Error(268).String() + ipa.String([4]byte{1, 2, 3, 4})
		},
		func() { asn.Tag(4).IsValidValue("x"); asn.Tag(68).IsValidValue(nil) },
		func() { hex.Dump("", []byte("abcdefgh")); hex.DumpDiff([]byte("abc"), []byte("abd")) },
		func() {
			t := oid.NewTree()
			t.AddNode(o)
			t.GetNextNode(nil, nil, false)
			t.ForRangeLeaves(func([]uint32, *oid.Node) {})
			t.RemoveNode(o[:2])
			t.Clear()
		},
		func() { agentx.PduTag(1).NotAllowedFlags(255); agentx.PduTag(200).NotAllowedFlags(1) },
	}
}

type firstCase func(w *mc.Worker) string

// firstCases lists the calls that are checked at the start of a process.
func firstCases() map[string][]firstCase {
	out := map[string][]firstCase{}
	pdus := func(id string, f func(agentx.Pdu, *mc.Worker) string) {
		for i := range 19 {
			out[id] = append(out[id], func(w *mc.Worker) string { return f(menu()[i+19*(i%2)], w) })
		}
	}
	payloads := func(id string, f payloadCase) {
		for i := range 19 {
			out[id] = append(out[id], func(w *mc.Worker) string {
				h := menu()[i+19*(i%2)]
				b := ref.Encode(h)[20:]
				h.PayloadSize = int32(len(b))
				h.Context, h.Params, h.Ranges, h.Varbinds = "", nil, nil, nil
				return f(h, b, w)
			})
		}
	}
	headers := func(id string, f func([]byte, *mc.Worker) string) {
		for i := range 19 {
			out[id] = append(out[id], func(w *mc.Worker) string { return f(ref.Encode(menu()[i+19*(i%2)])[:20:20], w) })
		}
		out[id] = append(out[id], func(w *mc.Worker) string {
			return f([]byte{1, 200, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}, w)
		})
	}
	pdus("C01", checkBytes)
	pdus("C02", checkRoundTrip)
	pdus("C03", checkVerdict)
	headers("C04", func(b []byte, w *mc.Worker) string { return checkHeader(b) })
	payloads("C05", checkPayload)
	pdus("C07", checkEncodeDbg)
	payloads("C07", checkPayloadDbg)
	headers("C07", checkHeaderDbg)
	payloads("C25", relay)
	pdus("C26", encodeLog)
	payloads("C26", payloadLog)
	pdus("C23", func(p agentx.Pdu, w *mc.Worker) string { _, m := renderCase(w, p, 0); return m })
	for i := range 6 {
		o := [][]uint32{nil, {1}, {1, 3, 6}, {4294967295, 0}, {1, 3, 6, 1, 4, 1, 9}, {2}}[i]
		p := [][]uint32{{1}, {1}, {1, 3}, {0}, {1, 3, 6, 1, 4, 2}, nil}[i]
		out["C11"] = append(out["C11"], func(w *mc.Worker) string { return cmpCase(o, p, w) })
		out["C12"] = append(out["C12"], func(w *mc.Worker) string { return textCase(o, w) })
		out["C12"] = append(out["C12"], func(w *mc.Worker) string {
			return parseCase([]string{"", ".", "1.2.", "4294967296", "1.3.6.1", ".0.1"}[i], w)
		})
		out["C13"] = append(out["C13"], func(w *mc.Worker) string { return copyCase(o, p, w) })
		b := []byte("some bytes of data")[:i*3]
		out["C18"] = append(out["C18"], func(w *mc.Worker) string {
			return dumpCase(w, "Dump", hex.Dump("", b), refDump("", b, 0, len(b)))
		})
		out["C19"] = append(out["C19"], func(w *mc.Worker) string { return diffCase(w, b, []byte("some bytes")) })
	}
	for i := range 6 {
		out["C20"] = append(out["C20"], func(w *mc.Worker) string {
			if fs := c20Funcs(); i < len(fs) {
				return fs[i](w)
			}
			return ""
		})
	}
	for _, t := range append([]byte{0, 48, 200}, vtOrder...) {
		out["C21"] = append(out["C21"], func(w *mc.Worker) string {
			for _, v := range append(fewValues(t), nil, "s", uint8(1)) {
				if m := valueCase(w, t, v); m != "" {
					return m
				}
			}
			return ""
		})
	}
	out["C22"] = append(out["C22"], func(w *mc.Worker) string {
		for _, n := range predefined {
			if ostr(oid.Name[n]) != registered[n] {
				return fmt.Sprintf("name %q maps to %s, registered: %s", n, ostr(oid.Name[n]), registered[n])
			}
		}
		return ""
	})
	tree := func(f func(x *tm) string) firstCase {
		return func(w *mc.Worker) string {
			u := [][]uint32{{1}, {1, 2}, {1, 2, 3}, {1, 4}, {2}}
			x := newTM(w, u)
			for _, i := range []int{3, 2, 4, 0} {
				if m := x.add(u[i]); m != "" {
					return m
				}
			}
			return f(x)
		}
	}
	out["C14"] = []firstCase{
		tree(func(x *tm) string { return x.check() }),
		tree(func(x *tm) string { return x.remove([]uint32{1, 2}) + x.check() }),
		tree(func(x *tm) string { return x.clear() + x.check() + x.add([]uint32{5, 6}) + x.check() }),
	}
	out["C15"] = []firstCase{
		tree(func(x *tm) string { return nextCase(x, x.leaves(), nil, nil, false) }),
		tree(func(x *tm) string { return nextCase(x, x.leaves(), []uint32{1, 2}, []uint32{2}, true) }),
	}
	return out
}

func runFirst(prop, seq string) {
	var b, k int
	fmt.Sscanf(seq, "%d,%d", &b, &k)
	befores()[b]()
	fmt.Print(firstCases()[prop][k](mc.Detached()))
}

func firstCalls(r *mc.Runner) {
	cases, nb := firstCases()[r.Property], len(befores())
	exe, err := os.Executable()
	if err != nil {
		r.Note("the first calls of a process were not explored: %v", err)
		return
	}
	r.Explore("first calls of a process", nb*len(cases), 0, func(sh int, c *mc.Ctx) string {
		b, k := sh%nb, sh/nb
		cmd := exec.Command(exe, "-property", r.Property, "-first", strconv.Itoa(b)+","+strconv.Itoa(k))
		var stderr bytes.Buffer
		cmd.Stderr = &stderr
		out, err := cmd.Output()
		c.W.Step(1)
		if err != nil && stderr.Len() == 0 {
			return "" // the process could not be started
		}
		if err != nil {
			return fmt.Sprintf("in a new process, after call %d: %v\n%s", b, err, clip(stderr.String()))
		}
		if len(out) > 0 {
			return fmt.Sprintf("in a new process, after call %d: %s", b, out)
		}
		c.W.State(mc.NewHash().Str("first").U(uint64(sh)).Sum())
		return ""
	})
}
