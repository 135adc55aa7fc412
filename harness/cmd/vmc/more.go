package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/generics"
	"github.com/alexispb/mygosnmp/ipa"
	"github.com/alexispb/mygosnmp/oid"

	"verif/mc"
	"verif/ref"
)

func init() {
	checks["C25"] = checkC25
	checks["C26"] = checkC26
	checks["C27"] = checkC27
	checks["C28"] = checkC28
}

// --- C25: what is decoded can be sent on

func relay(h agentx.Pdu, b []byte, w *mc.Worker) string {
	w.Step(1)
	p := h
	if !agentx.DecodePduPayload(&p, append([]byte(nil), b...)) {
		w.Outcome("refused")
		return ""
	}
	for i := 0; i < 2; i++ {
		q := ref.Copy(p)
		if i == 1 {
			q.Flags ^= agentx.FlagNetworkByteOrder
		}
		at := func(s string) string {
			return fmt.Sprintf("%s\naccepted: %s %s\ndecoded: %s", s, ref.Show(h), hexs(b), ref.Show(p))
		}
		want := ref.Copy(q)
		data, ok := agentx.EncodePdu(q)
		w.Step(2)
		if !ok {
			return at(fmt.Sprintf("the decoded PDU is refused by EncodePdu (byte order inverted: %v)", i == 1))
		}
		if len(data) < 20 {
			return at("short encoding")
		}
		x, ok := agentx.DecodePduHeader(data[:20])
		if !ok || !agentx.DecodePduPayload(&x, data[20:]) {
			return at("the encoding of the decoded PDU is not decoded: " + hexs(data))
		}
		if d := ref.Diff(x, ref.Normal(want, len(data))); d != "" {
			return at(fmt.Sprintf("after sending it on (byte order inverted: %v) it has %s", i == 1, d))
		}
		again, ok := agentx.EncodePdu(x)
		if !ok || !bytes.Equal(again, data) {
			return at(fmt.Sprintf("sent on a second time it is %s, was %s", hexs(again), hexs(data)))
		}
	}
	w.Outcome(ref.Types[byte(h.Tag)].Name)
	return ""
}

func checkC25(r *mc.Runner) {
	r.Assumptions = []string{"header and payload are decoded as one PDU whose announced size is the size of the data"}
	payloadSpaces(r, bound(r, 1, 2), relay)
}

// --- C26: the dumps in the debug logs

// dumpLine parses a line of a hex dump.
func dumpLine(s string) (off int, b []byte, ok bool) {
	s = strings.Trim(s, " ")
	if len(s) < 8 {
		return
	}
	for i := 0; i < 8; i++ {
		if strings.IndexByte("0123456789ABCDEF", s[i]) < 0 {
			return
		}
	}
	o, err := strconv.ParseUint(s[:8], 16, 32)
	if err != nil {
		return
	}
	t := s[8:]
	if t == "" {
		return int(o), nil, true
	}
	if !strings.HasPrefix(t, "  ") {
		return
	}
	for _, f := range strings.Fields(t) {
		x, err := strconv.ParseUint(f, 16, 8)
		if err != nil || len(f) != 2 {
			return
		}
		b = append(b, byte(x))
	}
	return int(o), b, true
}

// dumps checks that every dump line shows data (nil: unknown) and reports
// which bytes are shown, and how often.
func dumps(k *keep, data []byte, known bool) (seen []int, msg string) {
	seen = make([]int, len(data))
	shown := map[int]byte{}
	for _, rec := range k.recs {
		if len(rec) < 12 { // too short for a line of a dump
			if _, _, ok := dumpLine(rec); !ok {
				continue
			}
		}
		for rest := rec; rest != ""; {
			var line string
			line, rest, _ = strings.Cut(rest, "\n")
			off, b, ok := dumpLine(line)
			if !ok {
				continue
			}
			if known && off+len(b) > len(data) {
				return nil, fmt.Sprintf("the log shows bytes at %08X beyond the data: %q", off, line)
			}
			for i, x := range b {
				if known {
					if data[off+i] != x {
						return nil, fmt.Sprintf("the log shows %02X at %08X, where the data has %02X: %q", x, off+i, data[off+i], line)
					}
					seen[off+i]++
				} else if y, ok := shown[off+i]; ok && x != y {
					return nil, fmt.Sprintf("the log shows both %02X and %02X at %08X", y, x, off+i)
				}
				shown[off+i] = x
			}
		}
	}
	return seen, ""
}

// plain: no text of the PDU can be taken for a line of the log.
func plainText(s string) bool { return !strings.ContainsAny(s, "\n\r") && len(s) < 1<<17 }

func (k *keep) has(s string) bool {
	for _, r := range k.recs {
		if strings.Contains(r, s) {
			return true
		}
	}
	return false
}

const outOfRange = "out of range"

func encodeLog(p agentx.Pdu, w *mc.Worker) string {
	if !plainText(inputStrings(p)) {
		return ""
	}
	k := &keep{}
	data, ok := agentx.EncodePduDbg(p, k)
	w.Step(1)
	seen, m := dumps(k, data, ok)
	if m == "" && ok {
		for i, n := range seen {
			if n == 0 {
				m = fmt.Sprintf("the log does not show byte %08X of the encoding", i)
				break
			}
		}
	}
	if m == "" && k.has(outOfRange) && !strings.Contains(inputStrings(p), outOfRange) {
		m = "the log has an out-of-range dump"
	}
	if m != "" {
		return fmt.Sprintf("EncodePduDbg of %s: %s\n%s", ref.Show(p), m, clip(strings.Join(k.recs, "\n")))
	}
	w.Outcome(fmt.Sprintf("encode ok=%v", ok))
	return ""
}

func decodeLog(what string, b []byte, ok bool, k *keep) string {
	seen, m := dumps(k, b, true)
	if m == "" {
		for i, n := range seen {
			if n == 0 {
				m = fmt.Sprintf("the log does not show byte %08X of the data", i)
				break
			}
			if ok && n < 2 {
				m = fmt.Sprintf("the log shows byte %08X of the data only in the complete dump", i)
				break
			}
		}
	}
	if m == "" && k.has(outOfRange) && !bytes.Contains(b, []byte(outOfRange)) {
		m = "the log has an out-of-range dump"
	}
	if m != "" {
		return fmt.Sprintf("%s: %s\n%s", what, m, clip(strings.Join(k.recs, "\n")))
	}
	return ""
}

func headerLog(b []byte, w *mc.Worker) string {
	k := &keep{}
	p, ok := agentx.DecodePduHeaderDbg(b, k)
	w.Step(1)
	w.Outcome(fmt.Sprintf("header ok=%v", ok))
	if m := decodeLog(fmt.Sprintf("DecodePduHeaderDbg(%x)", b), b, ok, k); m != "" || !ok {
		return m
	}
	return shows(k, fmt.Sprintf("DecodePduHeaderDbg(%x)", b), p.Tag.String(), p.Flags.String(), p.SessionId, p.TransactionId, p.PacketId, p.PayloadSize)
}

// shows: the log names the values.
func shows(k *keep, what string, vals ...any) string {
	for _, v := range vals {
		s := ""
		switch x := v.(type) {
		case []uint32:
			s = oid.String(x)
		case [4]byte:
			s = ipa.String(x)
		default:
			s = fmt.Sprint(x)
		}
		if s != "" && !k.has(s) {
			return fmt.Sprintf("%s: the log does not show the decoded value %q\n%s", what, clip(s), clip(strings.Join(k.recs, "\n")))
		}
	}
	return ""
}

func payloadLog(h agentx.Pdu, b []byte, w *mc.Worker) string {
	if !plainText(string(b)) {
		return ""
	}
	k := &keep{}
	p := h
	ok := agentx.DecodePduPayloadDbg(&p, b, k)
	w.Step(1)
	w.Outcome(fmt.Sprintf("payload ok=%v", ok))
	what := fmt.Sprintf("DecodePduPayloadDbg(%s %s)", ref.Show(h), hexs(b))
	if m := decodeLog(what, b, ok, k); m != "" || !ok {
		return m
	}
	var vals []any
	if p.Flags&ref.FCtx != 0 {
		vals = append(vals, p.Context)
	}
	switch x := p.Params.(type) {
	case agentx.OpenParams:
		vals = append(vals, x.Timeout, x.Oid, x.Description)
	case agentx.CloseParams:
		vals = append(vals, x.Reason)
	case agentx.RegisterParams:
		vals = append(vals, x.Timeout, x.Priority, x.RangeSubid, x.Subtree)
		if x.RangeSubid != 0 {
			vals = append(vals, x.UpperBound)
		}
	case agentx.UnregisterParams:
		vals = append(vals, x.Priority, x.RangeSubid, x.Subtree)
		if x.RangeSubid != 0 {
			vals = append(vals, x.UpperBound)
		}
	case agentx.GetBulkParams:
		vals = append(vals, x.NonRepeaters, x.MaxRepeatitions)
	case agentx.AddAgentCapsParams:
		vals = append(vals, x.Oid, x.Description)
	case agentx.RemoveAgentCapsParams:
		vals = append(vals, x.Oid)
	case agentx.ResponseParams:
		vals = append(vals, x.SysUpTime, x.Error, x.Index)
	}
	if len(p.Ranges)+len(p.Varbinds) < 64 {
		for _, x := range p.Ranges {
			vals = append(vals, x.StartOid, x.EndOid)
		}
		for _, x := range p.Varbinds {
			vals = append(vals, x.Oid, x.Tag)
			if x.Value != nil && x.Tag != 68 {
				vals = append(vals, x.Value)
			}
		}
	}
	return shows(k, what, vals...)
}

func checkC26(r *mc.Runner) {
	r.Assumptions = []string{"a line of a record that starts with 8 upper-case hex digits, possibly after blanks, and goes on with hex bytes is a line of a dump",
		"PDUs whose own text contains line breaks are left out, because their text could be taken for a dump"}
	r.Explore("encode: fields", len(tagFlags), bound(r, 1, 2), func(sh int, c *mc.Ctx) string {
		x := tagFlags[sh]
		p := gen{c: c, bad: true, lite: true}.pdu(x.tag, x.flags)
		c.W.State(pduHash(p, mc.NewHash()).Sum())
		return encodeLog(p, c.W)
	})
	r.Explore("encode: fields, two deviations", len(tagFlags1), 2, func(sh int, c *mc.Ctx) string {
		x := tagFlags1[sh]
		c.NoBig = true
		p := gen{c: c, bad: true, lite: true}.pdu(x.tag, x.flags)
		c.W.State(pduHash(p, mc.NewHash()).Sum())
		return encodeLog(p, c.W)
	})
	big := bigPdus(1 << 14)
	r.Explore("encode: large", len(big), 0, func(sh int, c *mc.Ctx) string {
		return encodeLog(big[sh].mk(), c.W)
	})
	r.Explore("header: type x flags", 256, 0, func(sh int, c *mc.Ctx) string {
		for f := 0; f < 256; f++ {
			for _, tail := range [][]byte{{0, 4, 0, 0}, {8, 0, 0, 8}, {0, 0, 0, 0}, {0x80, 0, 0, 4}, {1, 0, 0, 0}} {
				for _, res := range []byte{0, 1} {
					b := append([]byte{1, byte(sh), byte(f), res, 1, 2, 3, 4, 0x55, 0x66, 7, 8, 9, 0xaa, 0xbb, 0xcc}, tail...)
					c.W.State(mc.NewHash().Bytes(b).Sum())
					if m := headerLog(b, c.W); m != "" {
						return m
					}
				}
			}
		}
		return ""
	})
	r.Explore("header: one byte", len(tagFlags1)*20, 0, func(sh int, c *mc.Ctx) string {
		x := tagFlags1[sh/20]
		b := []byte{1, x.tag, x.flags, 0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 0, 0, 0, 0}
		for v := 0; v < 256; v++ {
			b[sh%20] = byte(v)
			c.W.State(mc.NewHash().Bytes(b).Sum())
			if m := headerLog(b, c.W); m != "" {
				return m
			}
		}
		return ""
	})
	r.Explore("header: data length", len(tagFlags1), 0, func(sh int, c *mc.Ctx) string {
		for n := 0; n <= 64; n++ {
			b := make([]byte, n)
			copy(b, []byte{1, tagFlags1[sh].tag, tagFlags1[sh].flags, 0})
			if m := headerLog(b, c.W); m != "" {
				return m
			}
		}
		return ""
	})
	payloadSpaces(r, bound(r, 0, 1), payloadLog)
}

// --- C27: Fprint appends the text form

type printer struct {
	name string
	f    func(sb *strings.Builder)
	s    func() string
}

func printers() (ps []printer) {
	add := func(name string, f func(sb *strings.Builder), s func() string) {
		ps = append(ps, printer{name, f, s})
	}
	for _, o := range [][]uint32{nil, {}, {0}, {1, 3, 6, 1, 4, 1, 99}, {math.MaxUint32, 0, 10, 9}, {7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 19, 20}} {
		add("oid.Fprint", func(sb *strings.Builder) { oid.Fprint(sb, o) }, func() string { return oid.String(o) })
	}
	for _, a := range [][4]byte{{}, {10, 20, 30, 40}, {255, 255, 255, 255}, {1, 0, 100, 9}} {
		add("ipa.Fprint", func(sb *strings.Builder) { ipa.Fprint(sb, a) }, func() string { return ipa.String(a) })
	}
	for _, f := range []agentx.Flags{0, 1, 2, 16, 3, 31, 32, 0x60, 255, 8 | 16} {
		add("Flags.Fprint", func(sb *strings.Builder) { f.Fprint(sb) }, func() string { return f.String() })
	}
	for _, t := range vtOrder {
		for _, v := range append(fewValues(t), struct{}{}) {
			x := vb(t, []uint32{1, 3, 6, 1, 2, uint32(t)}, v)
			add("Varbind.Fprint", func(sb *strings.Builder) { x.Fprint(sb) }, func() string { return x.String() })
			add("Tag.Fprint", func(sb *strings.Builder) { asn.Tag(t).Fprint(sb, v) }, func() string {
				var sb strings.Builder
				asn.Tag(t).Fprint(&sb, v)
				return sb.String()
			})
		}
	}
	for _, t := range []byte{0, 1, 48, 69, 131, 255} {
		x := vb(t, nil, int32(5))
		add("Varbind.Fprint", func(sb *strings.Builder) { x.Fprint(sb) }, func() string { return x.String() })
	}
	for _, x := range []agentx.SearchRange{{}, {StartOid: []uint32{1, 2}}, {EndOid: []uint32{3, 4}, StartIncluded: 1}, {StartOid: []uint32{1, 3, 6, 1, 9}, EndOid: []uint32{math.MaxUint32}, StartIncluded: 255}} {
		add("SearchRange.Fprint", func(sb *strings.Builder) { x.Fprint(sb) }, func() string { return x.String() })
	}
	return
}

func checkC27(r *mc.Runner) {
	r.Assumptions = []string{"the text form of a bare value (Tag.Fprint, which has no String twin) is what it appends to an empty builder"}
	ps := printers()
	want := make([]string, len(ps))
	for i, p := range ps {
		want[i] = p.s()
	}
	starts := []struct {
		text string
		grow int
	}{{"", 0}, {"x", 0}, {"a: ", 1}, {"", 4096}, {"{", 64}, {strings.Repeat("long ", 2000), 0}, {"1.3.6", 3}, {"\n", 10}, {".", 0}, {"|", 0}, {", ", 2}, {"ends with {", 5}}
	run := func(c *mc.Ctx, start int, seq []int) string {
		var sb strings.Builder
		sb.Grow(starts[start].grow)
		sb.WriteString(starts[start].text)
		model := starts[start].text
		for _, i := range seq {
			ps[i].f(&sb)
			model += want[i]
			c.W.Step(1)
			if sb.String() != model {
				return fmt.Sprintf("%s of %q after %q: the builder has %q, want %q", ps[i].name, want[i], clip(model[:len(model)-len(want[i])]), clip(sb.String()), clip(model))
			}
		}
		for _, i := range seq { // the text form itself has not changed
			if s := ps[i].s(); s != want[i] {
				return fmt.Sprintf("%s: the text form changed from %q to %q", ps[i].name, want[i], s)
			}
		}
		c.W.State(mc.NewHash().U(uint64(start)).Str(fmt.Sprint(seq)).Sum())
		return ""
	}
	r.Explore("two calls on any builder", len(ps), 0, func(sh int, c *mc.Ctx) string {
		return run(c, c.Pick(len(starts)), []int{sh, c.Pick(len(ps))})
	})
	r.Explore("three calls", len(ps), 0, func(sh int, c *mc.Ctx) string {
		return run(c, (sh*5+1)%len(starts), []int{sh, c.Pick(len(ps)), c.Pick(len(ps))})
	})
	depth := bound(r, 0, 4)
	if depth > 0 {
		r.Explore("four calls", len(ps), 0, func(sh int, c *mc.Ctx) string {
			return run(c, sh%len(starts), []int{sh, c.Pick(len(ps)), c.Pick(len(ps)), c.Pick(len(ps))})
		})
	}
	// every short prefix in the builder
	r.Explore("any last bytes", 256, 0, func(sh int, c *mc.Ctx) string {
		for i := range ps {
			for _, pre := range []string{"", "ab", "1.3"} {
				var sb strings.Builder
				sb.WriteString(pre)
				sb.WriteByte(byte(sh))
				ps[i].f(&sb)
				c.W.Step(1)
				if got := sb.String(); got != pre+string([]byte{byte(sh)})+want[i] {
					return fmt.Sprintf("%s of %q after %q: the builder has %q", ps[i].name, want[i], pre+string([]byte{byte(sh)}), got)
				}
			}
		}
		return ""
	})
	var lens []int
	for k := 0; k <= 600; k++ {
		lens = append(lens, k)
	}
	for k := 10; k <= 17; k++ {
		for d := -20; d <= 4; d++ {
			lens = append(lens, 1<<k+d, 3<<(k-1)+d)
		}
	}
	r.Explore("builders of any length", len(lens), 0, func(sh int, c *mc.Ctx) string {
		s := textOf(lens[sh])
		for i := range ps {
			var sb strings.Builder
			sb.WriteString(s)
			ps[i].f(&sb)
			c.W.Step(1)
			if got := sb.String(); got != s+want[i] {
				return fmt.Sprintf("%s of %q into a builder with %d bytes: the builder has %q", ps[i].name, want[i], len(s), clip(got))
			}
		}
		return ""
	})
	r.Explore("long OIDs and builders", bound(r, 300, 1200), 0, func(n int, c *mc.Ctx) string {
		o := make([]uint32, n)
		for i := range o {
			o[i] = uint32(i * 0x01010101)
		}
		s := oid.String(o)
		x := vb(6, o, o)
		v := x.String()
		var sb strings.Builder
		model := ""
		for k := 0; k < 4; k++ {
			oid.Fprint(&sb, o)
			x.Fprint(&sb)
			model += s + v
			c.W.Step(2)
			if sb.String() != model {
				return fmt.Sprintf("Fprint of an OID of %d sub-identifiers into a builder with %d bytes", n, len(model)-len(s)-len(v))
			}
		}
		return ""
	})
	r.Sample(fmt.Sprintf("%d printables, e.g. %q, %q, %q", len(ps), want[3], want[12], want[40]))
}

// --- C28: Min and Max

func minMax[T generics.Ordered](c *mc.Ctx, vals []T) string {
	for _, a := range vals {
		for _, b := range vals {
			lo, hi := a, b
			if b < a {
				lo, hi = b, a
			}
			c.W.Step(2)
			if got := generics.Min(a, b); got != lo {
				return fmt.Sprintf("Min(%v, %v) of %T = %v", a, b, a, got)
			}
			if got := generics.Max(a, b); got != hi {
				return fmt.Sprintf("Max(%v, %v) of %T = %v", a, b, a, got)
			}
			c.W.State(mc.NewHash().Str(fmt.Sprintf("%T %v %v", a, a, b)).Sum())
		}
	}
	return ""
}

func ints[T generics.Signed](bits int) (out []T) {
	seen := map[T]bool{}
	for k := 0; k < bits; k++ {
		for d := int64(-2); d <= 2; d++ {
			for _, s := range []int64{1, -1} {
				x := T(s*int64(uint64(1)<<k) + d)
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
		}
	}
	return
}

func uints[T generics.Unsigned](bits int) (out []T) {
	seen := map[T]bool{}
	for k := 0; k < bits; k++ {
		for d := 0; d < 5; d++ {
			for _, x := range []T{T(uint64(1)<<k) + T(d), T(uint64(1)<<k) - T(d), T(0) - T(uint64(1)<<k)} {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
		}
	}
	return
}

type (
	myInt    int16
	myUint   uint64
	myFloat  float32
	myString string
)

func checkC28(r *mc.Runner) {
	r.Assumptions = []string{"floating-point arguments are not NaN"}
	fl := []float64{0, 1, -1, 0.5, math.Pi, -math.E, math.MaxFloat64, -math.MaxFloat64, math.SmallestNonzeroFloat64, -math.SmallestNonzeroFloat64, math.Inf(1), math.Inf(-1), 1 << 53, 1<<53 + 2, 1e300, -1e-300}
	var f32 []float32
	var mf []myFloat
	for _, x := range fl {
		f32 = append(f32, float32(x))
		mf = append(mf, myFloat(x))
	}
	var strs []string
	var ms []myString
	alpha := []string{"", "\x00", "a", "b", "\xff", "é"}
	for _, a := range alpha {
		for _, b := range alpha {
			for _, d := range alpha {
				strs = append(strs, a+b+d)
				ms = append(ms, myString(a+b+d))
			}
		}
	}
	var i8 []int8
	var u8 []uint8
	for x := 0; x < 256; x++ {
		i8 = append(i8, int8(x))
		u8 = append(u8, uint8(x))
	}
	runs := []func(c *mc.Ctx) string{
		func(c *mc.Ctx) string { return minMax(c, i8) }, func(c *mc.Ctx) string { return minMax(c, u8) },
		func(c *mc.Ctx) string { return minMax(c, ints[int16](16)) }, func(c *mc.Ctx) string { return minMax(c, ints[int32](32)) },
		func(c *mc.Ctx) string { return minMax(c, ints[int64](64)) }, func(c *mc.Ctx) string { return minMax(c, ints[int](64)) },
		func(c *mc.Ctx) string { return minMax(c, ints[myInt](16)) },
		func(c *mc.Ctx) string { return minMax(c, uints[uint16](16)) }, func(c *mc.Ctx) string { return minMax(c, uints[uint32](32)) },
		func(c *mc.Ctx) string { return minMax(c, uints[uint64](64)) }, func(c *mc.Ctx) string { return minMax(c, uints[uint](64)) },
		func(c *mc.Ctx) string { return minMax(c, uints[uintptr](64)) }, func(c *mc.Ctx) string { return minMax(c, uints[myUint](64)) },
		func(c *mc.Ctx) string { return minMax(c, fl) }, func(c *mc.Ctx) string { return minMax(c, f32) }, func(c *mc.Ctx) string { return minMax(c, mf) },
		func(c *mc.Ctx) string { return minMax(c, strs) }, func(c *mc.Ctx) string { return minMax(c, ms) },
	}
	r.Explore("pairs of every ordered type", len(runs), 0, func(sh int, c *mc.Ctx) string { return runs[sh](c) })
	r.Sample("all pairs of int8 and of uint8; boundary pairs of the other types")
}
