package main

import (
	"bytes"
	"fmt"
	"runtime"
	"runtime/debug"
	"syscall"
	"unsafe"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/hex"
	"github.com/alexispb/mygosnmp/oid"

	"verif/mc"
	"verif/ref"
)

// Explorations with arguments in protected memory: whatever a call may only
// read lies in read-only pages, and the spare capacity behind it in pages that
// cannot be accessed at all. A write, even one that is undone before the call
// returns, or an access beyond the argument faults, and the call no longer
// does what it does with ordinary memory. Further: calls after failed calls.

func init() {
	add := func(id string, f func(r *mc.Runner)) {
		old := checks[id]
		checks[id] = func(r *mc.Runner) {
			old(r)
			f(r)
		}
	}
	add("C08", guardCodec)
	add("C11", func(r *mc.Runner) {
		guardOids(r, func(a, b []uint32, w *mc.Worker) string { return cmpCase(a, b, w) })
	})
	add("C13", func(r *mc.Runner) { guardOids(r, copyCase) })
	add("C14", guardTree)
	add("C01", func(r *mc.Runner) { afterFailures(r, checkBytes) })
	add("C02", func(r *mc.Runner) { afterFailures(r, checkRoundTrip) })
	add("C03", func(r *mc.Runner) { afterFailures(r, checkVerdict) })
	add("C04", func(r *mc.Runner) {
		afterFailures(r, func(p agentx.Pdu, w *mc.Worker) string { w.Step(1); return checkHeader(ref.Encode(p)[:20]) })
	})
	add("C05", func(r *mc.Runner) { afterFailures(r, asPayload(checkPayload)) })
	add("C07", func(r *mc.Runner) {
		afterFailures(r, func(p agentx.Pdu, w *mc.Worker) string {
			if m := checkEncodeDbg(p, w); m != "" {
				return m
			}
			if m := checkHeaderDbg(ref.Encode(p)[:20], w); m != "" {
				return m
			}
			return asPayload(checkPayloadDbg)(p, w)
		})
	})
	add("C25", func(r *mc.Runner) { afterFailures(r, asPayload(relay)) })
	add("C26", func(r *mc.Runner) {
		afterFailures(r, func(p agentx.Pdu, w *mc.Worker) string {
			if m := encodeLog(p, w); m != "" {
				return m
			}
			return asPayload(payloadLog)(p, w)
		})
	})
}

func asPayload(f payloadCase) func(agentx.Pdu, *mc.Worker) string {
	return func(p agentx.Pdu, w *mc.Worker) string {
		b := ref.Encode(p)[20:]
		return f(agentx.Pdu{Tag: p.Tag, Flags: p.Flags, SessionId: 7, PayloadSize: int32(len(b))}, b, w)
	}
}

// failures are calls that fail, each in its own way.
func failures() (out []func()) {
	enc := func(p agentx.Pdu) {
		out = append(out, func() { agentx.EncodePdu(p) }, func() { agentx.EncodePduDbg(p, &discard{}) })
	}
	no, o := agentx.NoParams{}, []uint32{1, 3, 6, 1, 2, 1}
	enc(agentx.Pdu{})
	enc(agentx.Pdu{Tag: 99, Params: no})
	enc(agentx.Pdu{Tag: 12})
	enc(agentx.Pdu{Tag: 12, Params: agentx.OpenParams{}})
	enc(agentx.Pdu{Tag: 12, Params: no, Flags: 1})
	enc(agentx.Pdu{Tag: 12, Params: no, Flags: ref.FNbo, Varbinds: []asn.Varbind{vb(4, o, "a"), vb(4, o, 5)}})
	enc(agentx.Pdu{Tag: 12, Params: no, Varbinds: []asn.Varbind{vb(6, o, o), vb(200, o, nil)}})
	enc(agentx.Pdu{Tag: 5, Params: no, Ranges: []agentx.SearchRange{{StartOid: o}, {EndOid: longOid(nil, 140)}}})
	enc(agentx.Pdu{Tag: 3, Params: agentx.RegisterParams{Subtree: longOid(nil, 140)}, Flags: ref.FNbo | ref.FCtx, Context: "c"})
	enc(agentx.Pdu{Tag: 7, Params: agentx.GetBulkParams{NonRepeaters: -1}})
	hdr := func(b ...byte) {
		out = append(out, func() { agentx.DecodePduHeader(b) }, func() { agentx.DecodePduHeaderDbg(b, &discard{}) })
	}
	hdr()
	hdr(1, 12, 0)
	hdr(2, 12, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	hdr(1, 99, 16, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	hdr(1, 12, 0xff, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	hdr(1, 12, 16, 7, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	hdr(1, 12, 16, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 3)
	hdr(1, 12, 16, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0xff, 0, 0, 0)
	pay := func(tag, flags byte, size int, b ...byte) {
		h := agentx.Pdu{Tag: agentx.PduTag(tag), Flags: agentx.Flags(flags), PayloadSize: int32(size)}
		out = append(out, func() { p := h; agentx.DecodePduPayload(&p, b) }, func() { p := h; agentx.DecodePduPayloadDbg(&p, b, &discard{}) })
	}
	pay(12, 16, 8, 1, 2)
	pay(1, 16, 4, 0, 0, 0, 0)
	pay(1, 16, 12, 9, 1, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0)
	pay(5, 16, 4, 0, 2, 0, 0)                                                    // end OID missing
	pay(5, 16, 8, 0, 2, 0, 7, 0, 0, 0, 0)                                        // reserved byte
	pay(5, 16, 8, 200, 2, 0, 0, 0, 0, 0, 0)                                      // too many sub-identifiers
	pay(12, 16, 8, 0, 99, 0, 0, 0, 2, 0, 0)                                      // varbind type
	pay(12, 16, 8, 0, 5, 0, 1, 0, 2, 0, 0)                                       // varbind reserved bytes
	pay(12, 16, 16, 0, 4, 0, 0, 0, 2, 0, 0, 0, 0, 0, 1, 'a', 0, 0, 1)            // padding
	pay(12, 0, 16, 4, 0, 0, 0, 0, 2, 0, 0, 0xff, 0xff, 0xff, 0xff, 'a', 0, 0, 0) // negative length
	pay(12, 0, 20, 5, 0, 0, 0, 0, 2, 0, 0, 4, 0, 0, 0, 0, 2, 0, 0, 9, 0, 0, 0)   // second of two
	pay(12, 16, 16, 0, 64, 0, 0, 0, 2, 0, 0, 0, 0, 0, 3, 1, 2, 3, 0)             // address size
	pay(12, 16, 16, 0, 68, 0, 0, 0, 2, 0, 0, 0, 0, 1, 0, 1, 2, 3, 0)             // Opaque beyond the data
	pay(7, 16, 12, 0xff, 0xff, 0, 1, 0, 2, 0, 0, 0, 0, 0, 0)                     // negative counter
	pay(18, 16, 4, 0, 0, 0, 0)                                                   // short parameters
	pay(13, 24, 8, 0, 0, 0, 9, 'x', 'y', 'z', 0)                                 // context beyond the data
	pay(2, 16, 8, 1, 0, 0, 0, 0, 0, 0, 0)                                        // surplus data
	pay(99, 16, 0)                                                               // unknown type
	pay(3, 16, 16, 0, 0, 5, 0, 1, 2, 0, 0, 0, 0, 0, 1, 0, 0, 0, 2)               // reserved byte
	pay(16, 16, 12, 0, 2, 0, 0, 0, 0, 0, 1, 'd', 0, 0xff, 0)                     // padding
	out = append(out, func() { defer func() { recover() }(); oid.Parse("1.x") }, func() { defer func() { recover() }(); oid.Parse("1.2.4294967296") }, func() { hex.DumpSub("", nil, 3, 1) })
	return
}

func afterFailures(r *mc.Runner, check func(agentx.Pdu, *mc.Worker) string) {
	m, fs := menu(), failures()
	var good []agentx.Pdu
	for _, p := range m {
		if ref.Representable(p) {
			good = append(good, p)
		}
	}
	reps := []int{1, 2, 3, 4, 10}
	if r.Thorough() {
		reps = append(reps, 5, 6, 7, 8, 9, 16, 17, 32, 33, 64, 65, 100, 128, 256)
	}
	r.Explore1("after failed calls", len(fs), 0, func(sh int, c *mc.Ctx) string {
		for _, n := range reps {
			for i := range good {
				for k := 0; k < n; k++ {
					fs[sh]()
				}
				c.W.Step(n)
				if s := check(ref.Copy(good[i]), c.W); s != "" {
					return fmt.Sprintf("after failed call %d, %d times: %s", sh, n, s)
				}
			}
		}
		c.W.State(mc.NewHash().Str("failures").U(uint64(sh)).Sum())
		return ""
	})
}

// arena is memory whose contents can be made read-only; every block ends where
// inaccessible memory begins.
type arena struct {
	mem  []byte
	page int
	size int // of the accessible part of a slot
	n    int // slots used
	keep []any
}

const slots = 64

func newArena(size int) *arena {
	a := &arena{page: syscall.Getpagesize()}
	a.size = (size + a.page - 1) / a.page * a.page
	mem, err := syscall.Mmap(-1, 0, slots*(a.size+a.page), syscall.PROT_READ|syscall.PROT_WRITE, syscall.MAP_ANON|syscall.MAP_PRIVATE)
	if err != nil {
		panic(err)
	}
	a.mem = mem
	return a
}

func (a *arena) free() { syscall.Munmap(a.mem) }

func (a *arena) slot(i int) (open, closed []byte) {
	s := a.mem[i*(a.size+a.page):][:a.size+a.page]
	return s[:a.size], s[a.size:]
}

// block gives n bytes at the end of the next slot.
func (a *arena) block(n int) unsafe.Pointer {
	if a.n == slots || n > a.size {
		panic("arena: too much data")
	}
	open, _ := a.slot(a.n)
	a.n++
	return unsafe.Pointer(&a.mem[:cap(a.mem)][uintptr(unsafe.Pointer(&open[0]))-uintptr(unsafe.Pointer(&a.mem[0]))+uintptr(a.size-n)])
}

func inArena[T any](a *arena, x []T) []T {
	if x == nil {
		return nil
	}
	var t T
	size := int(unsafe.Sizeof(t))
	room := min(64, a.page/size) // elements of spare capacity
	p := a.block(size * len(x))
	y := unsafe.Slice((*T)(p), len(x)+room)[:len(x)]
	copy(y, x)
	return y
}

// lock protects the memory.
func (a *arena) lock() {
	for i := 0; i < a.n; i++ {
		open, closed := a.slot(i)
		if syscall.Mprotect(open, syscall.PROT_READ) != nil || syscall.Mprotect(closed, syscall.PROT_NONE) != nil {
			panic("mprotect")
		}
	}
}

func (a *arena) reset() {
	if a.n > 0 {
		if err := syscall.Mprotect(a.mem, syscall.PROT_READ|syscall.PROT_WRITE); err != nil {
			panic(err)
		}
	}
	a.n, a.keep = 0, nil
}

func (a *arena) pdu(p agentx.Pdu) agentx.Pdu {
	q := p
	o := func(x []uint32) []uint32 { return inArena(a, x) }
	switch x := p.Params.(type) {
	case agentx.OpenParams:
		x.Oid = o(x.Oid)
		q.Params = x
	case agentx.RegisterParams:
		x.Subtree = o(x.Subtree)
		q.Params = x
	case agentx.UnregisterParams:
		x.Subtree = o(x.Subtree)
		q.Params = x
	case agentx.AddAgentCapsParams:
		x.Oid = o(x.Oid)
		q.Params = x
	case agentx.RemoveAgentCapsParams:
		x.Oid = o(x.Oid)
		q.Params = x
	}
	rs := append([]agentx.SearchRange(nil), p.Ranges...)
	for i := range rs {
		if a.n < slots-6 {
			rs[i].StartOid, rs[i].EndOid = o(rs[i].StartOid), o(rs[i].EndOid)
		}
	}
	vs := append([]asn.Varbind(nil), p.Varbinds...)
	for i := range vs {
		if a.n >= slots-6 {
			break
		}
		vs[i].Oid = o(vs[i].Oid)
		switch y := vs[i].Value.(type) {
		case []uint32:
			vs[i].Value = o(y)
		case []byte:
			vs[i].Value = inArena(a, y)
		}
	}
	a.keep = append(a.keep, rs, vs, p) // what the arena refers to
	q.Ranges, q.Varbinds = inArena(a, rs), inArena(a, vs)
	return q
}

// faulty runs f with faults turned into panics and reports one that escapes.
func faulty(f func()) (fault string) {
	defer debug.SetPanicOnFault(debug.SetPanicOnFault(true))
	defer func() {
		if e := recover(); e != nil {
			if e == any(mc.Overdue) {
				panic(e)
			}
			fault = fmt.Sprint(e)
		}
	}()
	f()
	return
}

func guardCodec(r *mc.Runner) {
	ps := menu()
	for _, b := range bigPdus(40000) {
		if b.weight > 3000 || len(ps)%4 == 0 {
			ps = append(ps, b.mk())
		}
	}
	const where = "with the arguments in read-only memory (the memory behind them inaccessible) "
	r.Explore("arguments in protected memory", len(ps), 0, func(sh int, c *mc.Ctx) string {
		a := newArena(256 << 10)
		defer a.free()
		es := []agentx.Pdu{ps[sh]}
		if sh < 64 {
			es = editions(ps[sh])
		}
		for _, p := range es {
			want, wok := freshEncode(p)
			a.reset()
			q := a.pdu(p)
			a.lock()
			for i := 0; i < 3; i++ {
				var got []byte
				ok := wok
				c.W.Step(1)
				fault := faulty(func() {
					switch i {
					case 0:
						got, ok = agentx.EncodePdu(q)
					case 1:
						got, ok = agentx.EncodePduDbg(q, &discard{})
					case 2:
						got = want
						_ = q.String(1)
					}
				})
				if fault != "" || ok != wok || ok && !bytes.Equal(got, want) {
					return fmt.Sprintf("%s%s gives ok=%v (%s), otherwise ok=%v: %s", where, []string{"EncodePdu", "EncodePduDbg", "rendering"}[i], ok, fault, wok, brief(ref.Show(p)))
				}
			}
			runtime.KeepAlive(a.keep)
			if !wok || len(want) < 20 {
				continue
			}
			for n := 0; n < 20; n++ { // too short
				a.reset()
				hb := inArena(a, want[:n])
				a.lock()
				for i := 0; i < 2; i++ {
					ok := false
					c.W.Step(1)
					fault := faulty(func() {
						if i == 0 {
							_, ok = agentx.DecodePduHeader(hb)
						} else {
							_, ok = agentx.DecodePduHeaderDbg(hb, &discard{})
						}
					})
					if fault != "" || ok {
						return fmt.Sprintf("%sdecoding (debug %v) the first %d bytes of a header gives ok=%v (%s)", where, i == 1, n, ok, fault)
					}
				}
			}
			// decoding, also of damaged data
			for d := 0; d < 8; d++ {
				b := append([]byte(nil), want...)
				n := len(b)
				switch {
				case d >= 4 && n > 20:
					b = b[:max(20, n-[]int{2, 4, 5, 8}[d-4])]
				case d == 1 && n > 20:
					b = b[:n-1]
				case d == 2 && n > 24:
					b[20+(n-20)/2] ^= 0xff
				case d == 3 && n > 24:
					b[n-1] ^= 1
				case d > 0:
					continue
				}
				fh, fok := agentx.DecodePduHeader(b[:20])
				if !fok {
					continue
				}
				fh.PayloadSize = int32(len(b) - 20)
				fp := fh
				fpok := agentx.DecodePduPayload(&fp, append([]byte(nil), b[20:]...))
				a.reset()
				hb, pb := inArena(a, b[:20]), inArena(a, b[20:])
				a.lock()
				for i := 0; i < 2; i++ {
					var h agentx.Pdu
					var ok, pok bool
					c.W.Step(2)
					fault := faulty(func() {
						if i == 0 {
							h, ok = agentx.DecodePduHeader(hb)
							h.PayloadSize = fh.PayloadSize
							pok = agentx.DecodePduPayload(&h, pb)
						} else {
							h, ok = agentx.DecodePduHeaderDbg(hb, &discard{})
							h.PayloadSize = fh.PayloadSize
							pok = agentx.DecodePduPayloadDbg(&h, pb, &discard{})
						}
					})
					df := ""
					if ok && pok && fpok {
						df = ref.Diff(h, fp)
					}
					if fault != "" || !ok || pok != fpok || df != "" {
						return fmt.Sprintf("%sdecoding (debug %v) gives header %v, payload %v (%s%s), otherwise header true, payload %v: %s", where, i == 1, ok, pok, fault, df, fpok, hexs(b))
					}
				}
			}
		}
		c.W.State(mc.NewHash().Str("guard").U(uint64(sh)).Sum())
		return ""
	})
}

func guardOids(r *mc.Runner, check func(a, b []uint32, w *mc.Worker) string) {
	us := universe([]uint32{0, 1, 0xffffffff}, 3)
	for _, n := range []int{5, 8, 16, 17, 32, 33, 64, 100, 127, 128, 129, 256, 1000, 1024, 4096, 10000} {
		o := longOid(nil, n)
		p := append([]uint32(nil), o...)
		p[n-1]++
		us = append(us, o, p)
	}
	r.Explore("arguments in protected memory", len(us), 0, func(sh int, c *mc.Ctx) string {
		a := newArena(64 << 10)
		defer a.free()
		for _, y := range us {
			a.reset()
			p, q := inArena(a, us[sh]), inArena(a, y)
			a.lock()
			s := ""
			if f := faulty(func() { s = check(p, q, c.W) }); f != "" {
				s = "a call faults: " + f
			}
			if s != "" {
				return fmt.Sprintf("arguments %s and %s in read-only memory: %s", brief(ostr(us[sh])), brief(ostr(y)), brief(s))
			}
		}
		c.W.State(mc.NewHash().Str("guard").U(uint64(sh)).Sum())
		return ""
	})
}

func guardTree(r *mc.Runner) {
	us := universe([]uint32{1, 2}, 3)
	us = append(us, longOid(nil, 20), longOid(nil, 128), longOid(nil, 300))
	r.Explore("arguments in protected memory", len(us), 0, func(sh int, c *mc.Ctx) string {
		a := newArena(4096)
		defer a.free()
		a.reset()
		x := inArena(a, us[sh])
		var ys [][]uint32
		for _, y := range us {
			ys = append(ys, inArena(a, y))
		}
		a.lock()
		for i, y := range ys {
			t := oid.NewTree()
			var p, q, g, n *oid.Node
			var rx, ry, again bool
			f := faulty(func() {
				p = t.AddNode(x)
				q = t.AddNode(y)
				g = t.GetNode(x)
				n = t.GetNextNode(x, y, true)
				rx = t.RemoveNode(x)
				ry = t.RemoveNode(y)
				t.Clear()
				again = t.AddNode(x) != nil
			})
			c.W.Step(8)
			_, _ = n, ry
			if f != "" || (p == nil) != (len(x) == 0) || len(x) > 0 && g != p || rx != (p != nil) || again != (p != nil) || len(y) > len(x) && q == nil {
				return fmt.Sprintf("OIDs %q and %q in read-only memory: add, lookup, remove and clear fail (%s)", brief(ostr(us[sh])), brief(ostr(us[i])), f)
			}
		}
		c.W.State(mc.NewHash().Str("guard").U(uint64(sh)).Sum())
		return ""
	})
}
