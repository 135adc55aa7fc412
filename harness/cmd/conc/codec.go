package main

import (
	"fmt"
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/hex"
	"github.com/alexispb/mygosnmp/ipa"
	"github.com/alexispb/mygosnmp/logger"
	"github.com/alexispb/mygosnmp/oid"
	"github.com/alexispb/mygosnmp/pduerror"

	"verif/mc"
	"verif/vsched"
)

func init() { checks["C09"] = checkC09 }

// act is one call; out is read when all threads have ended.
type act struct {
	name string
	do   func()
	out  func() string
}

// fn makes a call of some kind on the v-th value of that kind.
type fn struct {
	name string
	mk   func(v int) act
}

// rec is a log that only its own thread uses.
type rec struct{ lines []string }

func (r *rec) Write(s string)                    { r.lines = append(r.lines, s) }
func (r *rec) Writef(f string, a ...interface{}) { r.lines = append(r.lines, fmt.Sprintf(f, a...)) }

var _ logger.Log = &rec{}

func dump(v any) string {
	switch x := v.(type) {
	case []byte:
		return fmt.Sprintf("%x", x)
	case agentx.Pdu:
		return fmt.Sprintf("%#v", x)
	}
	return fmt.Sprintf("%#v", v)
}

// kinds of PDUs; content depends on v.
type kind2 struct {
	name string
	pdu  func(v int) agentx.Pdu
}

// shared holds the inputs of the calls of a scenario in which all threads use
// the same ones; nil in the others.
var shared map[string]any

func once[T any](key string, mk func() T) T {
	if shared == nil {
		return mk()
	}
	if x, ok := shared[key]; ok {
		return x.(T)
	}
	x := mk()
	shared[key] = x
	return x
}

func vo(v int, more ...uint32) []uint32 {
	return once(fmt.Sprint("vo", v, more), func() []uint32 { return makeOid(v, more...) })
}

func makeOid(v int, more ...uint32) []uint32 {
	return spare(append([]uint32{1, 3, 6, 1, 4, 1, uint32(100 + v)}, more...))
}

// spare gives a slice capacity behind it, which is nobody's to write to.
func spare[T any](x []T) []T {
	if x == nil {
		return nil
	}
	return append(make([]T, 0, len(x)+5), x...)
}

func vs(v int) string { return strings.Repeat(string(rune('a'+v)), 3+v) }

var pduKinds []kind2

func init() {
	net := agentx.FlagNetworkByteOrder
	add := func(name string, tag agentx.PduTag, flags agentx.Flags, f func(v int, p *agentx.Pdu)) {
		pduKinds = append(pduKinds, kind2{name, func(v int) agentx.Pdu {
			return once(fmt.Sprint("pdu ", name, v), func() agentx.Pdu {
				p := agentx.Pdu{Tag: tag, Flags: flags, SessionId: uint32(0x01010101 * (v + 1)), TransactionId: uint32(0x02030405 * (v + 1)), PacketId: uint32(v + 9), Params: agentx.NoParams{}}
				if v%2 == 1 {
					p.Flags ^= net
				}
				f(v, &p)
				p.Ranges, p.Varbinds = spare(p.Ranges), spare(p.Varbinds)
				for i, x := range p.Varbinds {
					if b, ok := x.Value.([]byte); ok {
						p.Varbinds[i].Value = spare(b)
					}
				}
				return p
			})
		}})
	}
	add("Open", agentx.TagOpen, net, func(v int, p *agentx.Pdu) {
		p.Params = agentx.OpenParams{Timeout: byte(v + 1), Oid: vo(v), Description: vs(v)}
	})
	add("Close", agentx.TagClose, 0, func(v int, p *agentx.Pdu) {
		p.Params = agentx.CloseParams{Reason: agentx.CloseReason(v + 1)}
	})
	add("Register", agentx.TagRegister, net|agentx.FlagNonDefaultContext, func(v int, p *agentx.Pdu) {
		p.Context = vs(v + 1)
		p.Params = agentx.RegisterParams{Timeout: byte(v), Priority: 127, RangeSubid: 7, Subtree: vo(v), UpperBound: uint32(9 + v)}
	})
	add("Unregister", agentx.TagUnregister, 0, func(v int, p *agentx.Pdu) {
		p.Params = agentx.UnregisterParams{Priority: byte(127 + v), Subtree: vo(v)}
	})
	add("Get", agentx.TagGet, net, func(v int, p *agentx.Pdu) {
		p.Ranges = []agentx.SearchRange{{StartOid: vo(v, 1), StartIncluded: 1}, {StartOid: vo(v, 2), EndOid: vo(v + 1)}}
	})
	add("GetBulk", agentx.TagGetBulk, 0, func(v int, p *agentx.Pdu) {
		p.Params = agentx.GetBulkParams{NonRepeaters: int16(v), MaxRepeatitions: int16(v + 2)}
		p.Ranges = []agentx.SearchRange{{StartOid: vo(v), EndOid: vo(v + 2)}}
	})
	vals := []struct {
		t asn.Tag
		f func(v int) any
	}{
		{asn.TagInteger32, func(v int) any { return int32(-1000 - v) }},
		{asn.TagOctetString, func(v int) any { return vs(v) }},
		{asn.TagNull, func(v int) any { return nil }},
		{asn.TagObjectId, func(v int) any { return vo(v, 5, 6) }},
		{asn.TagIpAddress, func(v int) any { return [4]byte{10, 0, byte(v), 1} }},
		{asn.TagCounter32, func(v int) any { return uint32(0x10203040 + v) }},
		{asn.TagGauge32, func(v int) any { return uint32(0x20203040 + v) }},
		{asn.TagTimeTicks, func(v int) any { return uint32(0x30203040 + v) }},
		{asn.TagOpaque, func(v int) any { return []byte(vs(v + 2)) }},
		{asn.TagCounter64, func(v int) any { return uint64(0x1020304050607080 + v) }},
		{asn.TagNoSuchObject, func(v int) any { return nil }},
	}
	for i, x := range vals {
		tags := []agentx.PduTag{agentx.TagTestSet, agentx.TagNotify, agentx.TagIndexAllocate}
		add("varbind "+x.t.String(), tags[i%3], 0, func(v int, p *agentx.Pdu) {
			p.Varbinds = []asn.Varbind{{Oid: vo(v, 1), Tag: x.t, Value: x.f(v)}}
		})
	}
	add("two varbinds", agentx.TagResponse, net, func(v int, p *agentx.Pdu) {
		p.Params = agentx.ResponseParams{SysUpTime: uint32(v), Error: pduerror.Error(v), Index: int16(v)}
		p.Varbinds = []asn.Varbind{{Oid: vo(v, 1), Tag: asn.TagOctetString, Value: vs(v)}, {Oid: vo(v, 2), Tag: asn.TagOpaque, Value: []byte(vs(v))}}
	})
	add("AddAgentCaps", agentx.TagAddAgentCaps, 0, func(v int, p *agentx.Pdu) {
		p.Params = agentx.AddAgentCapsParams{Oid: vo(v), Description: vs(v)}
	})
	add("RemoveAgentCaps", agentx.TagRemoveAgentCaps, net, func(v int, p *agentx.Pdu) {
		p.Params = agentx.RemoveAgentCapsParams{Oid: vo(v)}
	})
	add("Ping", agentx.TagPing, net, func(v int, p *agentx.Pdu) {})
	long := func(v, n int) []uint32 {
		o := makeOid(v)
		for len(o) < n {
			o = append(o, uint32(len(o)*1000+v))
		}
		return o
	}
	add("long", agentx.TagResponse, 0, func(v int, p *agentx.Pdu) {
		p.Params = agentx.ResponseParams{SysUpTime: uint32(v)}
		for i := 0; i < 20+v; i++ {
			x := vals[(i+v)%len(vals)]
			p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: vo(v, uint32(i)), Tag: x.t, Value: x.f(v)})
		}
		p.Varbinds = append(p.Varbinds, asn.Varbind{Oid: long(v, 100+v), Tag: asn.TagOctetString, Value: strings.Repeat(vs(v), 1000)}, asn.Varbind{Oid: vo(v), Tag: asn.TagOpaque, Value: []byte(strings.Repeat(vs(v), 300))},
			asn.Varbind{Oid: long(v, 40), Tag: asn.TagObjectId, Value: long(v, 90)})
	})
	add("long ranges", agentx.TagGetNext, agentx.FlagNonDefaultContext, func(v int, p *agentx.Pdu) {
		p.Context = strings.Repeat(vs(v), 50)
		for i := 0; i < 20+v; i++ {
			p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: vo(v, uint32(i)), EndOid: vo(v, uint32(i+1))})
		}
		p.Ranges = append(p.Ranges, agentx.SearchRange{StartOid: long(v, 100+v), EndOid: long(v, 128)})
	})
	add("refused", agentx.TagNotify, net, func(v int, p *agentx.Pdu) {
		p.Varbinds = []asn.Varbind{{Oid: vo(v), Tag: asn.TagInteger32, Value: vs(v)}}
	})
}

// pduFns are the codec functions applied to a kind of PDU.
func pduFns(k kind2) []fn {
	frame := func(v int) []byte {
		return once(fmt.Sprint("frame ", k.name, v), func() []byte {
			p := k.pdu(v)
			b, ok := agentx.EncodePdu(p)
			if !ok { // a frame that does not decode
				p.Varbinds = nil
				b, _ = agentx.EncodePdu(p)
				b = append(b, byte(v), 0xff, 2, 3)
				if p.Flags&agentx.FlagNetworkByteOrder != 0 {
					b[19] = 4
				} else {
					b[16] = 4
				}
			}
			return spare(b)
		})
	}
	return []fn{
		{"encode " + k.name, func(v int) act {
			p := k.pdu(v)
			var b []byte
			var ok bool
			return act{do: func() { b, ok = agentx.EncodePdu(p) }, out: func() string { return fmt.Sprint(ok, dump(b), dump(p)) }}
		}},
		{"decode " + k.name, func(v int) act {
			b := frame(v)
			var p agentx.Pdu
			var ok, ok2 bool
			return act{do: func() {
				if p, ok = agentx.DecodePduHeader(b[:agentx.PduHeaderSize]); ok {
					ok2 = agentx.DecodePduPayload(&p, b[agentx.PduHeaderSize:])
				}
			}, out: func() string { return fmt.Sprint(ok, ok2, dump(p), dump(b)) }}
		}},
		{"format " + k.name, func(v int) act {
			p := k.pdu(v)
			var s string
			return act{do: func() { s = p.String(0) }, out: func() string { return s }}
		}},
		{"encodeDbg " + k.name, func(v int) act {
			p := k.pdu(v)
			var b []byte
			var ok bool
			l := &rec{}
			return act{do: func() { b, ok = agentx.EncodePduDbg(p, l) }, out: func() string { return fmt.Sprint(ok, dump(b), l.lines) }}
		}},
		{"decodeDbg " + k.name, func(v int) act {
			b := frame(v)
			var p agentx.Pdu
			var ok, ok2 bool
			l := &rec{}
			return act{do: func() {
				if p, ok = agentx.DecodePduHeaderDbg(b[:agentx.PduHeaderSize], l); ok {
					ok2 = agentx.DecodePduPayloadDbg(&p, b[agentx.PduHeaderSize:], l)
				}
			}, out: func() string { return fmt.Sprint(ok, ok2, dump(p), dump(b), l.lines) }}
		}},
	}
}

func str(name string, f func(v int) func() string) fn {
	return fn{name, func(v int) act {
		g := f(v)
		var s string
		return act{do: func() { s = g() }, out: func() string { return s }}
	}}
}

func oidf(name string, f func(v int) func() []uint32) fn {
	return fn{name, func(v int) act {
		g := f(v)
		var s []uint32
		return act{do: func() { s = g() }, out: func() string { return fmt.Sprint(s) }}
	}}
}

func sbf(name string, f func(v int) func(*strings.Builder)) fn {
	return str(name, func(v int) func() string {
		g := f(v)
		return func() string {
			var sb strings.Builder
			g(&sb)
			return sb.String()
		}
	})
}

func small() (fs []fn) {
	bytes := func(v, n int) []byte {
		return once(fmt.Sprint("bytes", v, n), func() []byte {
			b := make([]byte, n, n+5)
			for i := range b {
				b[i] = byte(i*7 + v*31)
			}
			return b
		})
	}
	fs = append(fs,
		str("oid.String", func(v int) func() string { o := vo(v); return func() string { return oid.String(o) } }),
		oidf("oid.Parse", func(v int) func() []uint32 {
			s := []string{"1.3.6.1", "2.7", "1.3.6.1.4", "9"}[v%4]
			return func() []uint32 { return oid.Parse(s) }
		}),
		oidf("oid.Parse bad", func(v int) func() []uint32 {
			s := []string{"1..2", "", "x", "4294967296"}[v%4]
			return func() (o []uint32) {
				defer func() {
					if recover() != nil {
						o = []uint32{77777}
					}
				}()
				return oid.Parse(s)
			}
		}),
		oidf("oid.Cat", func(v int) func() []uint32 { o := vo(v); return func() []uint32 { return oid.Cat(o, uint32(v), 2) } }),
		oidf("oid.Clone", func(v int) func() []uint32 { o := vo(v); return func() []uint32 { return oid.Clone(o) } }),
		str("oid.Compare", func(v int) func() string {
			a, b := vo(v), vo(3-v)
			return func() string {
				return fmt.Sprint(oid.Compare(a, b), oid.Lt(a, b), oid.Eq(a, b), oid.Ge(a, b), oid.HasPrefix(a, b...))
			}
		}),
		sbf("oid.Fprint", func(v int) func(*strings.Builder) {
			o := vo(v)
			return func(sb *strings.Builder) { oid.Fprint(sb, o) }
		}),
		str("hex.Dump", func(v int) func() string { b := bytes(v, 5+v); return func() string { return hex.Dump("  ", b) } }),
		str("hex.DumpSub", func(v int) func() string {
			b := bytes(v, 20)
			return func() string { return hex.DumpSub("", b, 14, 17+v%3) }
		}),
		str("hex.DumpTail", func(v int) func() string {
			b := bytes(v, 20)
			return func() string { return hex.DumpTail(" ", b, 17-v) }
		}),
		str("hex.DumpDiff", func(v int) func() string {
			a, b := bytes(v, 6), once("diff", func() []byte { b := append([]byte(nil), bytes(v, 5)...); b[2] ^= 1; return b })
			return func() string { return hex.DumpDiff(a, b) }
		}),
		str("long hex", func(v int) func() string {
			a, b := bytes(v, 300), once("long diff", func() []byte { b := append([]byte(nil), bytes(v, 290)...); b[200] ^= 9; return b })
			return func() string { return hex.Dump("", a) + hex.DumpTail("  ", a, 150) + hex.DumpDiff(a, b) }
		}),
		str("long OIDs", func(v int) func() string {
			o := once("long OID", func() []uint32 {
				o := make([]uint32, 120+v)
				for i := range o {
					o[i] = uint32(i * (v + 1) * 1000003)
				}
				return o
			})
			return func() string {
				s := oid.String(o)
				return s + fmt.Sprint(oid.Cat(oid.Clone(o), o[:20]...), oid.Compare(o, oid.Parse(s)))
			}
		}),
		str("ipa.String", func(v int) func() string {
			a := [4]byte{byte(v), 20, 255, byte(v + 100)}
			return func() string { return ipa.String(a) }
		}),
		str("Flags.String", func(v int) func() string {
			f := []agentx.Flags{1, 16 | 8, 31, 0x45}[v%4]
			return func() string { return f.String() }
		}),
		str("names", func(v int) func() string {
			return func() string {
				return agentx.PduTag(v+1).String() + agentx.CloseReason(v+1).String() + pduerror.Error(v).String() + asn.Tag(64+v).String()
			}
		}),
		str("unknown names", func(v int) func() string {
			return func() string {
				return agentx.PduTag(v+90).String() + agentx.CloseReason(v+91).String() + pduerror.Error(v+100).String() + asn.Tag(200+v).String()
			}
		}),
		str("NotAllowedFlags", func(v int) func() string {
			return func() string { return fmt.Sprint(int(agentx.PduTag(v + 1).NotAllowedFlags(agentx.Flags(0x1f)))) }
		}),
		str("IsValidValue", func(v int) func() string {
			return func() string {
				return fmt.Sprint(asn.TagInteger32.IsValidValue(int32(v)), asn.TagOpaque.IsValidValue("x"), asn.Tag(v).IsKnown(), asn.Tag(v).IsValueTag())
			}
		}),
		str("SearchRange.String", func(v int) func() string {
			r := agentx.SearchRange{StartOid: vo(v), EndOid: vo(v + 1), StartIncluded: byte(v)}
			return func() string { return r.String() }
		}),
	)
	for _, t := range []struct {
		t asn.Tag
		f func(v int) any
	}{{asn.TagInteger32, func(v int) any { return int32(-7 - v) }}, {asn.TagOctetString, func(v int) any { return vs(v) }}, {asn.TagOctetString, func(v int) any { return "\x00\x01" + vs(v) }},
		{asn.TagObjectId, func(v int) any { return vo(v) }}, {asn.TagIpAddress, func(v int) any { return [4]byte{1, 2, 3, byte(v)} }}, {asn.TagOpaque, func(v int) any { return []byte(vs(v)) }},
		{asn.TagCounter64, func(v int) any { return uint64(v) << 40 }}, {asn.TagTimeTicks, func(v int) any { return uint32(v * 12345) }}} {
		fs = append(fs, str("Varbind.String "+t.t.String(), func(v int) func() string {
			vb := once(fmt.Sprint("vb", t.t, v), func() asn.Varbind { return asn.Varbind{Oid: vo(v), Tag: t.t, Value: t.f(v)} })
			return func() string { return vb.String() }
		}))
	}
	fs = append(fs, str("tree of its own", func(v int) func() string {
		return func() string {
			t := oid.NewTree()
			a := t.AddNode([]uint32{1, uint32(v)})
			t.AddNode([]uint32{1, uint32(v + 1), 4})
			n := t.GetNextNode([]uint32{1, uint32(v)}, nil, false)
			s := fmt.Sprint(a.Subid, n.Subid, t.RemoveNode([]uint32{1, uint32(v)}))
			t.ForRangeLeaves(func(o []uint32, _ *oid.Node) { s += fmt.Sprint(o) })
			return s
		}
	}))
	return
}

type cscen struct {
	threads [][]fn
	base    int  // value of the first call
	shared  bool // all calls use the same value, in the same memory
}

func (s cscen) String() string {
	var t []string
	for _, l := range s.threads {
		var n []string
		for _, f := range l {
			n = append(n, f.name)
		}
		t = append(t, strings.Join(n, "; "))
	}
	if s.shared {
		return "threads with the same inputs {" + strings.Join(t, "} {") + "}"
	}
	return "threads {" + strings.Join(t, "} {") + "}"
}

// build makes the calls of every thread, each on a value of its own.
func (s cscen) build() (fs []func(), acts []act) {
	v := s.base
	if s.shared {
		shared = map[string]any{}
		defer func() { shared = nil }()
	}
	for _, l := range s.threads {
		var mine []act
		for _, f := range l {
			a := f.mk(v % 4)
			a.name = fmt.Sprintf("%s, value %d", f.name, v%4)
			if !s.shared {
				v++
			}
			mine = append(mine, a)
		}
		acts = append(acts, mine...)
		fs = append(fs, func() {
			for _, a := range mine {
				a.do()
			}
		})
	}
	return
}

func checkC09(r *mc.Runner, x *env) {
	r.Assumptions = []string{"scheduling points are statement boundaries and lock operations of the code under test; finer interleavings are covered by the race detector (no unordered conflicting access in any explored schedule)",
		"package variables are put back to their initial values before every execution, so that every execution is the first of its process", "bounds: 2-3 threads, 1-2 calls each, small values, preemption bound as listed; package sync behaves as modelled in verif/vsync"}
	var same, cross, twoeach, three, equal []cscen
	reps := small()
	for i, k := range pduKinds {
		fs := pduFns(k)
		for j, f := range fs {
			if j >= 3 && !r.Thorough() && i%4 != 0 {
				continue
			}
			same = append(same, cscen{[][]fn{{f}, {f}}, 0, false})
			equal = append(equal, cscen{[][]fn{{f}, {f}}, 1, true})
		}
		same = append(same, cscen{[][]fn{{fs[0]}, {fs[1]}}, 0, false})
		equal = append(equal, cscen{[][]fn{{fs[0]}, {fs[2]}}, 1, true})
		if r.Thorough() {
			equal = append(equal, cscen{[][]fn{{fs[0]}, {fs[3]}}, 2, true}, cscen{[][]fn{{fs[1]}, {fs[4]}}, 2, true}, cscen{[][]fn{{fs[2]}, {fs[3]}}, 2, true})
		}
		if k.name == "two varbinds" || k.name == "Open" || k.name == "Get" || k.name == "refused" || r.Thorough() && i%3 == 0 {
			reps = append(reps, fs[:3]...)
		}
	}
	for _, k := range pduKinds {
		if k.name == "varbind OctetString" || k.name == "Register" {
			reps = append(reps, pduFns(k)[3:]...)
		}
	}
	for i, f := range reps {
		equal = append(equal, cscen{[][]fn{{f}, {f}}, 1, true})
		for j := i; j < len(reps); j++ {
			if !r.Thorough() && i != j && strings.HasPrefix(reps[j].name, "long") != strings.HasPrefix(f.name, "long") {
				continue // long inputs only among themselves
			}
			cross = append(cross, cscen{[][]fn{{f}, {reps[j]}}, 0, false})
		}
		g, h := reps[(i+5)%len(reps)], reps[(i+11)%len(reps)]
		twoeach = append(twoeach, cscen{[][]fn{{f, f}, {f, f}}, 0, false}, cscen{[][]fn{{f, g}, {g, f}}, 0, false}, cscen{[][]fn{{f, g}, {h}}, 0, false})
		three = append(three, cscen{[][]fn{{f}, {f}, {f}}, 0, false}, cscen{[][]fn{{f}, {g}, {h}}, 0, false})
	}
	if x.shard == 0 {
		r.Sample(same[3].String())
		r.Sample(cross[77].String())
		r.Sample(three[len(three)-1].String())
	}
	run := func(name string, ss []cscen, limits []int) {
		// what each call gives when it runs alone in a fresh process
		want := make(map[int][]string)
		alone := func(i int) []string {
			if w, ok := want[i]; ok {
				return w
			}
			vsched.Reset()
			_, acts := ss[i].build()
			var w []string
			for _, a := range acts {
				vsched.Reset()
				a.do()
				w = append(w, a.out())
			}
			want[i] = w
			return w
		}
		bounded(r, x, name, len(ss), func(i int) []func() {
			vsched.Reset()
			fs, _ := ss[i].build()
			return fs
		}, limits, func(i int, c *mc.Ctx) string {
			w := alone(i)
			vsched.Reset()
			fs, acts := ss[i].build()
			if m := x.schedule(c, fs...); m != "" {
				return ss[i].String() + ": " + m
			}
			for j, a := range acts {
				if got := a.out(); got != w[j] {
					return fmt.Sprintf("%s: call %q gave\n%s\nalone it gives\n%s", ss[i], a.name, got, w[j])
				}
			}
			c.W.State(mc.NewHash().Str(name).U(uint64(i)).Sum())
			return ""
		})
	}
	vsched.Visits = 2
	if r.Thorough() {
		vsched.Visits = 20
	}
	r.Note(fmt.Sprintf("a thread can be preempted at the first %d executions of each statement", vsched.Visits))
	if !r.Thorough() {
		run("2 threads, the same function", same, []int{40, 110})
		run("2 threads, the same inputs", equal, []int{20, 70})
		run("2 threads, two functions", cross, []int{20, 70})
		run("2 threads, 2 calls", twoeach, []int{0, 60})
		run("3 threads", three, []int{0, 60})
	} else {
		run("2 threads, the same function", same, []int{120, 1000})
		run("2 threads, the same inputs", equal, []int{60, 300})
		run("2 threads, two functions", cross, []int{60, 300})
		run("2 threads, 2 calls", twoeach, []int{60, 250})
		run("3 threads", three, []int{40, 150})
	}
}
