package main

import (
	"fmt"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"

	"verif/mc"
	"verif/ref"
)

// payloadCase is a header and payload bytes.
type payloadCase func(h agentx.Pdu, b []byte, w *mc.Worker) string

func header(tag, flags byte, size int) agentx.Pdu {
	return agentx.Pdu{Tag: agentx.PduTag(tag), Flags: agentx.Flags(flags), SessionId: 0x11121314, TransactionId: 0x21222324, PacketId: 0x31323334, PayloadSize: int32(size)}
}

func checkPayload(h agentx.Pdu, b []byte, w *mc.Worker) string {
	want, wok := ref.DecodePayload(h, b)
	got := h
	ok := agentx.DecodePduPayload(&got, b)
	w.Step(1)
	if ok != wok {
		return fmt.Sprintf("DecodePduPayload(%s, %s) reports ok=%v, want %v", ref.Show(h), hexs(b), ok, wok)
	}
	if got.Tag != h.Tag || got.Flags != h.Flags || got.SessionId != h.SessionId || got.TransactionId != h.TransactionId || got.PacketId != h.PacketId || got.PayloadSize != h.PayloadSize {
		return fmt.Sprintf("DecodePduPayload(%s, %s) changes header fields: %s", ref.Show(h), hexs(b), ref.Show(got))
	}
	if ok {
		w.Outcome("accepted " + ref.Types[h.Tag].Name)
		if d := ref.DiffPayload(got, want); d != "" {
			return fmt.Sprintf("DecodePduPayload(%s, %s) gives %s", ref.Show(h), hexs(b), d)
		}
	} else {
		w.Outcome("refused " + ref.Types[h.Tag].Name)
	}
	return ""
}

// basePdus returns a rich set of PDUs of a type, for mutation.
func basePdus(tag, flags byte) []agentx.Pdu {
	var out []agentx.Pdu
	ti := ref.Types[tag]
	mk := func(p agentx.Pdu) {
		p.Tag, p.Flags, p.Context = agentx.PduTag(tag), agentx.Flags(flags), "ctx"
		if p.Params == nil {
			p.Params = defaultParams(ti.Kind)
		}
		out = append(out, p)
	}
	os := [][]uint32{{1, 3, 6, 1, 4, 1, 9}, nil, {2, 7}, {1, 3, 6, 1, 255}}
	switch ti.Kind {
	case ref.KNone, ref.KClose, ref.KBulk:
		mk(agentx.Pdu{})
	case ref.KOpen:
		for _, o := range os {
			mk(agentx.Pdu{Params: agentx.OpenParams{Timeout: 3, Oid: o, Description: "hello"}})
		}
		mk(agentx.Pdu{Params: agentx.OpenParams{Timeout: 3, Oid: os[2], Description: "four"}})
	case ref.KRegister:
		for _, o := range os {
			mk(agentx.Pdu{Params: agentx.RegisterParams{Timeout: 1, Priority: 2, RangeSubid: 3, Subtree: o, UpperBound: 9}})
			mk(agentx.Pdu{Params: agentx.RegisterParams{Timeout: 1, Priority: 2, RangeSubid: 0, Subtree: o}})
		}
	case ref.KUnregister:
		for _, o := range os {
			mk(agentx.Pdu{Params: agentx.UnregisterParams{Priority: 2, RangeSubid: 3, Subtree: o, UpperBound: 9}})
			mk(agentx.Pdu{Params: agentx.UnregisterParams{Priority: 2, RangeSubid: 0, Subtree: o}})
		}
	case ref.KAddCaps:
		for _, o := range os {
			mk(agentx.Pdu{Params: agentx.AddAgentCapsParams{Oid: o, Description: "hello"}})
		}
	case ref.KRemoveCaps:
		for _, o := range os {
			mk(agentx.Pdu{Params: agentx.RemoveAgentCapsParams{Oid: o}})
		}
	case ref.KResponse:
		mk(agentx.Pdu{})
	}
	if ti.Ranges {
		for _, o := range os {
			for _, q := range os {
				mk(agentx.Pdu{Ranges: []agentx.SearchRange{{StartOid: o, EndOid: q, StartIncluded: 1}}})
			}
		}
		mk(agentx.Pdu{Ranges: []agentx.SearchRange{{StartOid: os[0], EndOid: os[2]}, {StartOid: os[2], EndOid: os[0], StartIncluded: 1}, {}}})
	}
	if ti.Varbinds {
		for _, t := range vtOrder {
			for _, v := range fewValues(t) {
				mk(agentx.Pdu{Varbinds: []asn.Varbind{{Tag: asn.Tag(t), Oid: os[2], Value: v}}})
				mk(agentx.Pdu{Varbinds: []asn.Varbind{{Tag: asn.Tag(t), Oid: os[0], Value: v}, {Tag: 2, Oid: nil, Value: int32(1)}}})
			}
		}
	}
	return out
}

var wordsBE = [][4]byte{{0, 0, 0, 0}, {0, 0, 0, 1}, {0, 0, 0, 4}, {0, 0, 0, 5}, {1, 0, 0, 0}, {0, 4, 0, 0}, {1, 2, 1, 0}, {0, 2, 0, 0}, {0, 6, 0, 0}, {0, 68, 0, 0}, {0, 70, 0, 0},
	{0, 130, 0, 0}, {'a', 0, 0, 0}, {'a', 'b', 'c', 'd'}, {0xff, 0xff, 0xff, 0xff}, {0x80, 0, 0, 0}, {0, 64, 0, 0}, {2, 0, 0, 0}, {0, 0, 1, 0}, {0, 0, 0, 8}}

func swapWord(w [4]byte) [4]byte { return [4]byte{w[3], w[2], w[1], w[0]} }

// payloadSpaces enumerates headers with payload bytes, well-formed or not.
// size is 0 (light, for slow functions), 1 or 2.
func payloadSpaces(r *mc.Runner, size int, check payloadCase) {
	light := size == 0
	// 1. encodings of generated PDUs, untouched
	r.Explore("well-formed", len(tagFlags), []int{1, 2, 3}[size], func(sh int, c *mc.Ctx) string {
		x := tagFlags[sh]
		b := ref.Encode(gen{c: c, lite: light}.pdu(x.tag, x.flags))[20:]
		c.W.State(mc.NewHash().Bytes(b).Sum())
		return check(header(x.tag, x.flags, len(b)), b, c.W)
	})
	big := bigPdus([]int{1 << 16, 1 << 25, 1 << 25}[size])
	r.Explore("large, whole and damaged", len(big), 0, func(sh int, c *mc.Ctx) string {
		p := big[sh].mk()
		b := ref.Encode(p)[20:]
		tag, flags := byte(p.Tag), byte(p.Flags)
		run := func() string {
			if m := check(header(tag, flags, len(b)), b, c.W); m != "" {
				return big[sh].name + ": " + m
			}
			return ""
		}
		if m := run(); m != "" || light {
			return m
		}
		for _, at := range []int{0, len(b) / 2, len(b) - 1, len(b) - 4, len(b) - 8, len(b) - 12} { // one byte changed
			if at >= 0 && at < len(b) && len(b) <= 1<<20+4 {
				b[at] ^= 0x81
				if m := run(); m != "" {
					return m
				}
				b[at] ^= 0x81
			}
		}
		b = b[:len(b)-4]
		if m := run(); m != "" {
			return m
		}
		b = append(b[:len(b):len(b)], 0, 0, 0, 0, 0, 0, 0, 0)
		return run()
	})
	// 2. mutations
	type base struct {
		tf
		b []byte
	}
	var bases []base
	for _, x := range tagFlags1 {
		for i, p := range basePdus(x.tag, x.flags) {
			if light && i%3 != int(x.tag)%3 && i > 0 {
				continue
			}
			bases = append(bases, base{x, ref.Encode(p)[20:]})
		}
	}
	r.Sample(fmt.Sprintf("%d base payloads, e.g. %+v", len(bases), bases[len(bases)/2]))
	r.Explore("every byte x every value", len(bases), 0, func(sh int, c *mc.Ctx) string {
		x := bases[sh]
		b := append([]byte(nil), x.b...)
		h := header(x.tag, x.flags, len(b))
		for i := range b {
			for v := 0; v < 256; v++ {
				if light && v > 8 && v < 250 && v%16 > 1 {
					continue
				}
				b[i] = byte(v)
				if m := check(h, b, c.W); m != "" {
					return m
				}
				c.W.State(mc.NewHash().U(uint64(x.tag)<<8 | uint64(x.flags)).Bytes(b).Sum())
			}
			b[i] = x.b[i]
		}
		return ""
	})
	r.Explore("truncated, extended, announced size off", len(bases), 0, func(sh int, c *mc.Ctx) string {
		x := bases[sh]
		for n := 0; n <= len(x.b); n++ {
			for _, sz := range []int{n, len(x.b), n - 1, n + 1, n + 4, 0, -1, -4, 1 << 30} {
				b := append(make([]byte, 0, len(x.b)+8), x.b[:n]...)
				if m := check(header(x.tag, x.flags, sz), b, c.W); m != "" {
					return m
				}
				// the same with live bytes behind the slice
				if m := check(header(x.tag, x.flags, sz), x.b[:n], c.W); m != "" {
					return m
				}
			}
			if n%4 == 0 { // cut out or duplicate a word
				if n >= 4 {
					b := append(append([]byte(nil), x.b[:n-4]...), x.b[n:]...)
					if m := check(header(x.tag, x.flags, len(b)), b, c.W); m != "" {
						return m
					}
				}
				for _, wd := range wordsBE {
					b := append(append(append([]byte(nil), x.b[:n]...), wd[:]...), x.b[n:]...)
					if m := check(header(x.tag, x.flags, len(b)), b, c.W); m != "" {
						return m
					}
				}
			}
		}
		for n := 1; n <= 9; n++ {
			for _, v := range []byte{0, 1, 255} {
				b := append([]byte(nil), x.b...)
				for i := 0; i < n; i++ {
					b = append(b, v)
				}
				for _, sz := range []int{len(b), len(x.b)} {
					if m := check(header(x.tag, x.flags, sz), b, c.W); m != "" {
						return m
					}
				}
			}
		}
		return ""
	})
	// 3. two mutated bytes
	some := []byte{0, 1, 4, 0x80, 0xff}
	if size == 2 {
		some = []byte{0, 1, 2, 3, 4, 5, 6, 64, 68, 0x7f, 0x80, 0x81, 0xff}
	}
	stepB := 1
	if light {
		stepB, some = 6, []byte{0, 1, 0xff}
	}
	r.Explore("two bytes", len(bases), 0, func(sh int, c *mc.Ctx) string {
		if sh%stepB != 0 {
			return ""
		}
		x := bases[sh]
		b := append([]byte(nil), x.b...)
		h := header(x.tag, x.flags, len(b))
		for i := range b {
			for j := i + 1; j < len(b) && j < i+24; j++ {
				for _, v := range some {
					for _, u := range some {
						b[i], b[j] = v, u
						if m := check(h, b, c.W); m != "" {
							return m
						}
					}
				}
				b[j] = x.b[j]
			}
			b[i] = x.b[i]
		}
		return ""
	})
	// 4. all strings of words
	words := wordsBE
	k := []int{2, 4, 5}[size]
	r.Explore("all word strings", len(tagFlags1), 0, func(sh int, c *mc.Ctx) string {
		x := tagFlags1[sh]
		var b []byte
		n := c.Pick(k + 1)
		for i := 0; i < n; i++ {
			w := words[c.Pick(len(words))]
			if x.flags&ref.FNbo == 0 && (w[3] != 0 || w[0] == 0x80 || w[1] != 0 && w[0] == 0 && x.tag >= 8) {
				w = swapWord(w) // little-endian numbers and types
				if w[0] == 0 && w[1] == 0 && w[2] != 0 {
					w = [4]byte{w[2], 0, 0, 0}
				}
			}
			b = append(b, w[:]...)
		}
		c.W.State(mc.NewHash().U(uint64(x.tag)<<8 | uint64(x.flags)).Bytes(b).Sum())
		return check(header(x.tag, x.flags, len(b)), b, c.W)
	})
	// 5. all short byte strings, any alignment
	kb := []int{1, 2, 3}[size]
	r.Explore("all byte strings", len(tagFlags1)*256, 0, func(sh int, c *mc.Ctx) string {
		x := tagFlags1[sh/256]
		if sh%256 == 0 {
			if m := check(header(x.tag, x.flags, 0), nil, c.W); m != "" {
				return m
			}
		}
		b := []byte{byte(sh)}
		if m := check(header(x.tag, x.flags, 1), b, c.W); m != "" {
			return m
		}
		for i := 0; kb >= 2 && i < 256; i++ {
			b := []byte{byte(sh), byte(i)}
			if m := check(header(x.tag, x.flags, 2), b, c.W); m != "" {
				return m
			}
			for j := 0; kb >= 3 && j < 256; j++ {
				b := []byte{byte(sh), byte(i), byte(j)}
				if m := check(header(x.tag, x.flags, 3), b, c.W); m != "" {
					return m
				}
			}
		}
		return ""
	})
	// 6. every 16-bit varbind type, with values of every size
	r.Explore("every varbind type", len(vbTags)*2*256, 0, func(sh int, c *mc.Ctx) string {
		tag, nbo, hi := vbTags[sh/512], sh/256%2 == 1, sh%256
		for lo := 0; lo < 256; lo++ {
			if light && hi > 2 && hi < 254 && lo > 2 {
				continue
			}
			for _, tail := range [][]byte{nil, {0, 0, 0, 0}, {0, 0, 0, 0, 0, 0, 0, 0}, {4, 0, 0, 0, 1, 2, 3, 4}, {0, 0, 0, 4, 1, 2, 3, 4}} {
				w := ref.W{Nbo: nbo}
				if tag == 18 {
					w.U32(1)
					w.U32(0)
				}
				w.U16(uint16(hi<<8 | lo))
				w.U8(0, 0)
				w.Oid([]uint32{1, 3}, 0)
				w.U8(tail...)
				f := byte(0)
				if nbo {
					f = ref.FNbo
				}
				if m := check(header(tag, f, len(w.B)), w.B, c.W); m != "" {
					return m
				}
			}
		}
		return ""
	})
	// 7. every object identifier header: count x prefix x include, reserved
	r.Explore("every oid header", 256, 0, func(sh int, c *mc.Ctx) string {
		body := make([]byte, 256*4)
		for i := range body {
			body[i] = byte(i)
		}
		for prefix := 0; prefix < 256; prefix++ {
			if light && prefix > 2 && (prefix < 254 || sh%8 > 1) {
				continue
			}
			for k, inc := range []byte{0, 1, 2, 255, 0, 0} {
				res := byte(0)
				if k == 4 {
					res = 1
				}
				if k == 5 {
					res = 255
				}
				for d := -1; d <= 1; d++ { // exact number of words, one less, one more
					n := sh + d
					if n < 0 || d != 0 && prefix > 2 {
						continue
					}
					for _, nbo := range []bool{false, true} {
						f := byte(0)
						if nbo {
							f = ref.FNbo
						}
						oid := append([]byte{byte(sh), byte(prefix), inc, res}, body[:4*n]...)
						b := oid
						if m := check(header(17, f, len(b)), b, c.W); m != "" {
							return m
						}
						if prefix <= 2 {
							b = append(append([]byte(nil), oid...), 0, 0, 0, 0)
							if m := check(header(5, f, len(b)), b, c.W); m != "" {
								return m
							}
							b = append([]byte{0, 4, 0, 0}, oid...)
							if m := check(header(6, f, len(b)), b, c.W); m != "" {
								return m
							}
							w := ref.W{Nbo: nbo}
							w.U16(6)
							w.U8(0, 0)
							w.Oid([]uint32{1}, 0)
							w.U8(oid...)
							if m := check(header(8, f, len(w.B)), w.B, c.W); m != "" {
								return m
							}
							w.B = w.B[:0]
							w.U16(5)
							w.U8(0, 0)
							w.U8(oid...)
							if m := check(header(12, f, len(w.B)), w.B, c.W); m != "" {
								return m
							}
						}
					}
				}
			}
		}
		return ""
	})
	// 8. octet string lengths against the data available
	r.Explore("every string length", 80, 0, func(sh int, c *mc.Ctx) string {
		body := make([]byte, 96)
		var lens []uint32
		for i := uint32(0); i < 90; i++ {
			lens = append(lens, i)
		}
		lens = append(lens, 255, 256, 257, 65535, 65536, 1<<24, 1<<28, 1<<30, 1<<31-1, 1<<31-2, 1<<31-3, 1<<31-4, 1<<31, 1<<31+1, 1<<32-1, 1<<32-2, 1<<32-3, 1<<32-4, 1<<32-5, 1<<32-8)
		for _, n := range lens {
			if light && n < 90 && int(n)/4 != sh/4 && n%16 != 0 {
				continue
			}
			for _, nbo := range []bool{false, true} {
				f := byte(0)
				if nbo {
					f = ref.FNbo
				}
				for fill := 0; fill < 3; fill++ {
					for i := range body {
						body[i] = byte(fill * 'x')
						if fill == 2 && i < int(n) {
							body[i] = 'y'
						} else if fill == 2 {
							body[i] = 0
						}
					}
					data := body[:sh]
					for k := 0; k < 6; k++ {
						w := ref.W{Nbo: nbo}
						var h agentx.Pdu
						switch k {
						case 0: // context
							h = header(13, f|ref.FCtx, 0)
						case 1:
							h = header(1, f, 0)
							w.U8(9, 0, 0, 0)
							w.Oid(nil, 0)
						case 2:
							h = header(16, f, 0)
							w.Oid([]uint32{1, 3, 6, 1, 4}, 0)
						default:
							h = header(8, f, 0)
							w.U16([]uint16{4, 68, 64}[k-3])
							w.U8(0, 0)
							w.Oid([]uint32{1}, 0)
						}
						w.U32(n)
						w.U8(data...)
						h.PayloadSize = int32(len(w.B))
						if m := check(h, w.B, c.W); m != "" {
							return m
						}
					}
				}
			}
		}
		return ""
	})
	// 9. GetBulk counters
	r.Explore("GetBulk counters", 512, 0, func(sh int, c *mc.Ctx) string {
		for v := 0; v < 256; v++ {
			if light && v > 2 {
				continue
			}
			x := uint16(sh%256)<<8 | uint16(v)
			for k := 0; k < 3; k++ {
				w := ref.W{Nbo: sh >= 256}
				a, b := x, uint16(0)
				if k == 1 {
					a, b = 7, x
				} else if k == 2 {
					b = ^x
				}
				w.U16(a)
				w.U16(b)
				if m := check(header(7, byte(sh/256*ref.FNbo), 4), w.B, c.W); m != "" {
					return m
				}
			}
		}
		return ""
	})
}

func checkC05(r *mc.Runner) { payloadSpaces(r, bound(r, 1, 2), checkPayload) }
