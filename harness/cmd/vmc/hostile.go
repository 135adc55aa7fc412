package main

import (
	"fmt"
	"runtime"
	"runtime/debug"
	"strings"

	"github.com/alexispb/mygosnmp/agentx"

	"verif/mc"
	"verif/ref"
)

func init() {
	checks["C06"] = checkC06
	checks["C07"] = checkC07
}

// discard is a log that formats and forgets.
type discard struct{ n int }

func (d *discard) Write(msg string)          { d.n += len(msg) }
func (d *discard) Writef(f string, a ...any) { d.n += len(fmt.Sprintf(f, a...)) }

// keep is a log that keeps its records.
type keep struct{ recs []string }

func (d *keep) Write(msg string)          { d.recs = append(d.recs, msg) }
func (d *keep) Writef(f string, a ...any) { d.recs = append(d.recs, fmt.Sprintf(f, a...)) }

func alloc() uint64 {
	var ms runtime.MemStats
	runtime.ReadMemStats(&ms)
	return ms.TotalAlloc
}

func checkC06(r *mc.Runner) {
	r.Assumptions = append(r.Assumptions, "memory is measured as bytes allocated (runtime.MemStats.TotalAlloc) during the call; the bound is 64 bytes per input byte plus 16 KiB for the plain functions and 1024 bytes per input byte plus 64 KiB for the debug functions (which format several log records per field)",
		"non-termination is reported when a single call makes no progress for 150 s")
	// Memory: one goroutine, every hostile length or count at every place.
	debug.SetGCPercent(400)
	var worst [2]float64
	measure := func(what string, n int, k, c uint64, f func()) string {
		a := alloc()
		f()
		d := alloc() - a
		i := 0
		if k > 100 {
			i = 1
		}
		if q := float64(d) / float64(n+64); q > worst[i] {
			worst[i] = q
		}
		if d > k*uint64(n)+c {
			return fmt.Sprintf("%s allocates %d bytes for %d bytes of input (limit %d)", what, d, n, k*uint64(n)+c)
		}
		return ""
	}
	both := func(h agentx.Pdu, b []byte) string {
		ok := false
		d := &discard{}
		if m := measure("DecodePduPayload", len(b), 64, 16<<10, func() { p := h; ok = agentx.DecodePduPayload(&p, b) }); m != "" {
			return fmt.Sprintf("%s: %s %s", m, ref.Show(h), hexs(b))
		}
		if m := measure("DecodePduPayloadDbg", len(b), 1024, 64<<10, func() { p := h; ok = agentx.DecodePduPayloadDbg(&p, b, d) }); m != "" {
			return fmt.Sprintf("%s: %s %s", m, ref.Show(h), hexs(b))
		}
		_ = ok
		return ""
	}
	// a warm-up so that one-time allocations are not attributed to an input
	for _, x := range tagFlags {
		for _, p := range basePdus(x.tag, x.flags) {
			b := ref.Encode(p)
			q, _ := agentx.DecodePduHeader(b[:20])
			agentx.DecodePduPayload(&q, b[20:])
			q, _ = agentx.DecodePduHeaderDbg(b[:20], &discard{})
			agentx.DecodePduPayloadDbg(&q, b[20:], &discard{})
		}
	}
	sizes := []uint32{0, 1, 3, 4, 5, 8, 16, 255, 256, 1 << 10, 1 << 16, 1<<16 + 1, 1 << 20, 1 << 24, 1 << 27, 1 << 28, 1<<28 + 1, 1 << 30, 1<<31 - 4, 1<<31 - 1, 1 << 31, 1<<31 + 4, 1<<32 - 4, 1<<32 - 1}
	r.Explore1("announced string lengths (memory)", len(sizes)*2, 0, func(sh int, c *mc.Ctx) string {
		nbo := sh%2 == 1
		f := byte(sh % 2 * ref.FNbo)
		n := sizes[sh/2]
		data := make([]byte, mc.PickOf(c, []int{0, 1, 3, 4, 8, 12, 16, 20, 64, 256, 1024}))
		if c.Pick(2) == 1 {
			for i := range data {
				data[i] = 'z'
			}
		}
		w := ref.W{Nbo: nbo}
		var h agentx.Pdu
		switch k := c.Pick(9); k {
		case 0:
			h = header(13, f|ref.FCtx, 0)
		case 1:
			h = header(1, f, 0)
			w.U8(9, 0, 0, 0)
			w.Oid(nil, 0)
		case 2:
			h = header(16, f, 0)
			w.Oid([]uint32{1, 3, 6, 1, 4}, 0)
		case 3, 4, 5:
			h = header(8, f, 0)
			w.U16([]uint16{4, 68, 64}[k-3])
			w.U8(0, 0)
			w.Oid([]uint32{1}, 0)
		case 6, 7:
			h = header(18, f, 0)
			w.U32(0)
			w.U32(0)
			for i := 0; i < 20; i++ {
				w.U16(68)
				w.U8(0, 0)
				w.Oid(nil, 0)
				w.U32(0)
			}
			w.U16([]uint16{4, 68}[k-6])
			w.U8(0, 0)
			w.Oid([]uint32{1}, 0)
		case 8:
			h = header(14, f|ref.FCtx, 0)
		}
		w.U32(n)
		w.U8(data...)
		h.PayloadSize = int32(len(w.B))
		c.W.Step(2)
		c.W.State(mc.NewHash().Bytes(w.B).U(uint64(h.Tag)).Sum())
		return both(h, w.B)
	})
	r.Explore1("announced sub-identifier counts (memory)", 256, 0, func(sh int, c *mc.Ctx) string {
		oid := append([]byte{byte(sh), mc.PickOf(c, []byte{0, 1, 255}), 0, 0}, make([]byte, 4*mc.PickOf(c, []int{0, 1, 2, 127, 128, 129, 255, 256}))...)
		b := oid
		t := mc.PickOf(c, []byte{17, 5, 8, 3})
		switch t {
		case 8:
			b = append([]byte{5, 0, 0, 0}, oid...)
		case 3:
			b = append([]byte{1, 2, 3, 0}, oid...)
		}
		c.W.Step(2)
		return both(header(t, 0, len(b)), b)
	})
	r.Explore1("many list elements (memory)", 14, 0, func(sh int, c *mc.Ctx) string {
		n := mc.PickOf(c, []int{1, 2, 3, 5, 8, 16, 17, 33, 64, 100, 129, 257, 1000, 3000})
		cut := c.Pick(5)
		var b []byte
		h := header(8, 0, 0)
		for i := 0; i < n; i++ {
			w := ref.W{}
			if sh == 13 {
				h = header(5, 0, 0)
				w.Oid(nil, 0)
				w.Oid(nil, 0)
			} else {
				w.U16(uint16(vtOrder[sh]))
				w.U8(0, 0)
				w.Oid(nil, 0)
				w.Value(vtOrder[sh], fewValues(vtOrder[sh])[0])
			}
			b = append(b, w.B...)
		}
		b = b[:len(b)-cut]
		h.PayloadSize = int32(len(b))
		c.W.Step(2)
		return both(h, b)
	})
	r.Explore1("headers (memory)", 256, 0, func(sh int, c *mc.Ctx) string {
		b := make([]byte, mc.PickOf(c, []int{0, 1, 3, 4, 16, 19, 20, 21, 40, 400}))
		v := mc.PickOf(c, []byte{0, 0x7f, 0xff, 0xfc})
		for i := range b {
			b[i] = v
		}
		copy(b, []byte{1, byte(sh), mc.PickOf(c, []byte{0, 16, 255}), 0})
		c.W.Step(2)
		if m := measure("DecodePduHeader", len(b), 64, 16<<10, func() { agentx.DecodePduHeader(b) }); m != "" {
			return m
		}
		return measure("DecodePduHeaderDbg", len(b), 1024, 64<<10, func() { agentx.DecodePduHeaderDbg(b, &discard{}) })
	})
	// every field of every base payload overwritten by hostile bytes, 16-bit
	// and 32-bit values; measured in groups, one by one when a group is high
	type mbase struct {
		x tf
		b []byte
	}
	var mb []mbase
	for _, x := range tagFlags {
		for _, p := range basePdus(x.tag, x.flags) {
			mb = append(mb, mbase{x, ref.Encode(p)[20:]})
		}
	}
	r.Explore1("hostile fields (memory)", len(mb), 0, func(sh int, c *mc.Ctx) string {
		x := mb[sh]
		h := header(x.x.tag, x.x.flags, len(x.b))
		for pos := 0; pos < len(x.b); pos++ {
			if pos%2 == 1 && !r.Thorough() {
				continue
			}
			var vs [][]byte
			for _, v := range []byte{0xff, 0x80, 0x7f} {
				vs = append(vs, []byte{v})
			}
			for _, v := range []uint16{0x7fff, 0xffff, 0x4000, 0xff7f, 0x0040} {
				vs = append(vs, []byte{byte(v >> 8), byte(v)})
			}
			for _, v := range []uint32{0x7fffffff, 0x7fffffff - 3, 0x00ffff00, 0xffffff7f, 0x10000000, 0x00000010, 0x00010000, 0x7fff7fff, 0xff7fff7f} {
				vs = append(vs, []byte{byte(v >> 24), byte(v >> 16), byte(v >> 8), byte(v)})
			}
			var bs [][]byte
			for _, v := range vs {
				if pos+len(v) <= len(x.b) {
					b := append([]byte(nil), x.b...)
					copy(b[pos:], v)
					bs = append(bs, b)
				}
			}
			c.W.Step(2 * len(bs))
			a := alloc()
			for _, b := range bs {
				p := h
				agentx.DecodePduPayload(&p, b)
			}
			a1 := alloc()
			for _, b := range bs {
				p := h
				agentx.DecodePduPayloadDbg(&p, b, &discard{})
			}
			a2 := alloc()
			n := uint64(len(x.b) * len(bs))
			if a1-a > 32*n+16<<10 || a2-a1 > 512*n+64<<10 {
				for _, b := range bs {
					if m := both(h, b); m != "" {
						return m
					}
				}
			}
		}
		return ""
	})
	r.Note("largest allocation measured: %.1f bytes per (input byte + 64) for plain, %.1f for debug functions", worst[0], worst[1])
	// Panics and termination, all cores. Any panic that leaves a call is a
	// violation (reported by the explorer).
	r.Explore("headers of every length and type", 256, 0, func(sh int, c *mc.Ctx) string {
		for n := 0; n <= 40; n++ {
			for _, v := range []byte{0, 1, 0x7f, 0x80, 0xff} {
				for _, f := range []byte{0, 8, 16, 31, 0xe0, 255} {
					b := make([]byte, n)
					for i := range b {
						b[i] = v
					}
					copy(b, []byte{1, byte(sh), f, 0})
					agentx.DecodePduHeader(b)
					agentx.DecodePduHeaderDbg(b, &discard{})
					c.W.Step(2)
				}
			}
		}
		return ""
	})
	payloadSpaces(r, bound(r, 0, 1), func(h agentx.Pdu, b []byte, w *mc.Worker) string {
		p, q := h, h
		if agentx.DecodePduPayload(&p, b) {
			w.Outcome("accepted")
		} else {
			w.Outcome("refused")
		}
		agentx.DecodePduPayloadDbg(&q, b, &discard{})
		w.Step(2)
		return ""
	})
	// Headers that DecodePduHeader would not have produced: any type and
	// flags byte, any announced size.
	r.Explore("payload with an arbitrary header", 256, 0, func(sh int, c *mc.Ctx) string {
		for f := 0; f < 256; f += 1 {
			for _, b := range [][]byte{nil, {0}, make([]byte, 4), make([]byte, 8), {0, 0, 0, 4, 1, 2, 3, 4, 0, 2, 0, 0, 0, 0, 0, 0, 0, 0, 0, 0}} {
				for _, d := range []int{0, 1, -1 << 31} {
					h := header(byte(sh), byte(f), len(b)+d)
					p := h
					agentx.DecodePduPayload(&p, b)
					p = h
					agentx.DecodePduPayloadDbg(&p, b, &discard{})
					c.W.Step(2)
				}
			}
		}
		return ""
	})
	r.Explore1("deep nesting of large inputs", 4, 0, func(sh int, c *mc.Ctx) string {
		n := []int{1 << 16, 1 << 18, 1 << 20, 1 << 22}[sh]
		b := make([]byte, n)
		for i := 0; i < n; i += 8 { // null varbinds, or ranges of null OIDs
			b[i] = 5
		}
		if m := measure("DecodePduPayload", n, 64, 16<<10, func() { h := header(8, 0, n); agentx.DecodePduPayload(&h, b) }); m != "" {
			return m
		}
		clear(b)
		h := header(6, 0, n)
		return measure("DecodePduPayload", n, 64, 16<<10, func() { agentx.DecodePduPayload(&h, b) })
	})
}

// --- C07

func logVerdict(k *keep, ok bool, input string) string {
	mark, bad := false, ""
	for _, s := range k.recs {
		if strings.Contains(s, "!!!") {
			mark = true
		}
		if i := strings.Index(s, "%!"); i >= 0 && !strings.Contains(input, "%!") {
			bad = s
		}
	}
	if !ok && !mark {
		return "fails without a !!! record in the log"
	}
	if ok && mark && !strings.Contains(input, "!!!") {
		return "succeeds but the log has a !!! record"
	}
	if bad != "" {
		return fmt.Sprintf("log record with a formatting error: %q", bad)
	}
	if len(k.recs) == 0 {
		return "logs nothing"
	}
	return ""
}

func inputStrings(p agentx.Pdu) string {
	s := p.Context
	switch q := p.Params.(type) {
	case agentx.OpenParams:
		s += q.Description
	case agentx.AddAgentCapsParams:
		s += q.Description
	}
	for _, v := range p.Varbinds {
		if x, ok := v.Value.(string); ok {
			s += x
		}
	}
	return s
}

func checkEncodeDbg(p agentx.Pdu, w *mc.Worker) string {
	a, ok := agentx.EncodePdu(p)
	k := &keep{}
	b, okd := agentx.EncodePduDbg(p, k)
	w.Step(2)
	if ok != okd {
		return fmt.Sprintf("EncodePdu reports ok=%v but EncodePduDbg ok=%v for %s", ok, okd, ref.Show(p))
	}
	if ok && string(a) != string(b) {
		return fmt.Sprintf("EncodePduDbg of %s gives %s, EncodePdu %s", ref.Show(p), hexs(b), hexs(a))
	}
	if m := logVerdict(k, ok, inputStrings(p)); m != "" {
		return fmt.Sprintf("EncodePduDbg of %s %s", ref.Show(p), m)
	}
	w.Outcome(fmt.Sprintf("encode ok=%v", ok))
	return ""
}

func checkPayloadDbg(h agentx.Pdu, b []byte, w *mc.Worker) string {
	p, q := h, h
	ok := agentx.DecodePduPayload(&p, b)
	k := &keep{}
	okd := agentx.DecodePduPayloadDbg(&q, b, k)
	w.Step(2)
	if ok != okd {
		return fmt.Sprintf("DecodePduPayload reports ok=%v but DecodePduPayloadDbg ok=%v for %s %s", ok, okd, ref.Show(h), hexs(b))
	}
	if ok {
		if d := ref.Diff(q, p); d != "" {
			return fmt.Sprintf("DecodePduPayloadDbg(%s %s) gives (compared with DecodePduPayload) %s", ref.Show(h), hexs(b), d)
		}
	}
	if m := logVerdict(k, ok, string(b)); m != "" {
		return fmt.Sprintf("DecodePduPayloadDbg(%s %s) %s", ref.Show(h), hexs(b), m)
	}
	w.Outcome(fmt.Sprintf("payload ok=%v", ok))
	return ""
}

func checkHeaderDbg(b []byte, w *mc.Worker) string {
	p, ok := agentx.DecodePduHeader(b)
	k := &keep{}
	q, okd := agentx.DecodePduHeaderDbg(b, k)
	w.Step(2)
	if ok != okd {
		return fmt.Sprintf("DecodePduHeader reports ok=%v but DecodePduHeaderDbg ok=%v for %x", ok, okd, b)
	}
	if ok {
		if d := ref.Diff(q, p); d != "" {
			return fmt.Sprintf("DecodePduHeaderDbg(%x) gives (compared with DecodePduHeader) %s", b, d)
		}
	}
	if m := logVerdict(k, ok, ""); m != "" {
		return fmt.Sprintf("DecodePduHeaderDbg(%x) %s", b, m)
	}
	w.Outcome(fmt.Sprintf("header ok=%v", ok))
	return ""
}

func checkC07(r *mc.Runner) {
	r.Explore("encode: fields", len(tagFlags), bound(r, 1, 2), func(sh int, c *mc.Ctx) string {
		x := tagFlags[sh]
		p := gen{c: c, bad: true, lite: true}.pdu(x.tag, x.flags)
		c.W.State(pduHash(p, mc.NewHash()).Sum())
		return checkEncodeDbg(p, c.W)
	})
	r.Explore("encode: fields, two deviations", len(tagFlags1), 2, func(sh int, c *mc.Ctx) string {
		x := tagFlags1[sh]
		c.NoBig = true
		p := gen{c: c, bad: true, lite: true}.pdu(x.tag, x.flags)
		c.W.State(pduHash(p, mc.NewHash()).Sum())
		return checkEncodeDbg(p, c.W)
	})
	big := bigPdus(1 << 16)
	r.Explore("encode: large", len(big), 0, func(sh int, c *mc.Ctx) string {
		return checkEncodeDbg(big[sh].mk(), c.W)
	})
	kinds := paramKinds()
	r.Explore("encode: types x params x flags", 256, 0, func(sh int, c *mc.Ctx) string {
		for _, k := range kinds {
			for f := 0; f < 256; f++ {
				if f&31 != f && f&(f-1) != 0 && f != 255 {
					continue
				}
				if m := checkEncodeDbg(agentx.Pdu{Tag: agentx.PduTag(sh), Flags: agentx.Flags(f), Params: k, Context: "c"}, c.W); m != "" {
					return m
				}
			}
		}
		return ""
	})
	vals := allValues()
	r.Explore("encode: value tags x value types", 256, 0, func(sh int, c *mc.Ctx) string {
		for _, v := range vals {
			p := agentx.Pdu{Tag: 8, Params: agentx.NoParams{}}
			p.Varbinds = append(p.Varbinds, vb(2, []uint32{1}, int32(3)), vb(byte(sh), []uint32{1, 2}, v))
			if m := checkEncodeDbg(p, c.W); m != "" {
				return m
			}
		}
		return ""
	})
	r.Explore("header: type x flags", 256, 0, func(sh int, c *mc.Ctx) string {
		for f := 0; f < 256; f++ {
			for k := 0; k < 7; k++ {
				b := []byte{1, byte(sh), byte(f), 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 4, 0, 0, 4}
				switch k {
				case 1:
					b[0] = 2
				case 2:
					b[3] = 1
				case 3:
					copy(b[16:], []byte{0, 0, 0, 8})
				case 4:
					copy(b[16:], []byte{8, 0, 0, 0})
				case 5:
					copy(b[16:], []byte{5, 0, 0, 5})
				case 6:
					copy(b[16:], []byte{0x80, 0, 0, 0x80})
				}
				if m := checkHeaderDbg(b, c.W); m != "" {
					return m
				}
			}
		}
		return ""
	})
	r.Explore("header: one byte", len(tagFlags1)*20, 0, func(sh int, c *mc.Ctx) string {
		x := tagFlags1[sh/20]
		b := []byte{1, x.tag, x.flags, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 0, 0, 0, 0}
		for v := 0; v < 256; v++ {
			b[sh%20] = byte(v)
			c.W.State(mc.NewHash().Bytes(b).Sum())
			if m := checkHeaderDbg(b, c.W); m != "" {
				return m
			}
		}
		return ""
	})
	r.Explore("header: data length", len(tagFlags1), 0, func(sh int, c *mc.Ctx) string {
		for n := 0; n <= 64; n++ {
			b := make([]byte, n)
			copy(b, []byte{1, tagFlags1[sh].tag, tagFlags1[sh].flags, 0})
			if m := checkHeaderDbg(b, c.W); m != "" {
				return m
			}
		}
		return ""
	})
	payloadSpaces(r, bound(r, 0, 1), checkPayloadDbg)
}
