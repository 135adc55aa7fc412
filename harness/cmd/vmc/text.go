package main

import (
	"bytes"
	"fmt"
	"math"
	"strconv"
	"strings"
	"sync"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/hex"
	"github.com/alexispb/mygosnmp/ipa"
	"github.com/alexispb/mygosnmp/pduerror"

	"verif/mc"
	"verif/ref"
)

func init() {
	checks["C18"] = checkC18
	checks["C19"] = checkC19
	checks["C20"] = checkC20
	checks["C21"] = checkC21
	checks["C23"] = checkC23
}

// trimLines drops blanks at the ends of lines, which no property mentions.
func trimLines(s string) string {
	if !strings.Contains(s, " \n") && !strings.HasSuffix(s, " ") {
		return s
	}
	l := strings.Split(s, "\n")
	for i := range l {
		l[i] = strings.TrimRight(l[i], " ")
	}
	return strings.Join(l, "\n")
}

func refRow(off int, b []byte) string {
	s := fmt.Sprintf("%08X  ", uint32(off))
	for _, x := range b {
		s += fmt.Sprintf("%02X ", x)
	}
	return s
}

func refDump(prefix string, d []byte, i1, i2 int) string {
	if i1 < 0 || i1 > i2 || i2 > len(d) {
		return prefix + "out of range: i1 = " + strconv.Itoa(i1) + ", i2 = " + strconv.Itoa(i2) + ", len(data) = " + strconv.Itoa(len(d))
	}
	if i1 == i2 {
		return prefix + refRow(i1, nil)
	}
	var rows []string
	for i := i1; i < i2; i += 4 {
		e := i + 4
		if e > i2 {
			e = i2
		}
		rows = append(rows, prefix+refRow(i, d[i:e]))
	}
	return strings.Join(rows, "\n")
}

func dumpCase(w *mc.Worker, what string, got, want string) string {
	w.Step(1)
	if strings.Contains(want, "out of range") {
		w.Outcome("out of range")
	} else {
		w.Outcome("dump")
	}
	if trimLines(got) != trimLines(want) {
		return fmt.Sprintf("%s:\n got %q\nwant %q", what, clip(got), clip(want))
	}
	return ""
}

func clip(s string) string {
	if len(s) > 1200 {
		return s[:1200] + "..."
	}
	return s
}

func checkC18(r *mc.Runner) {
	r.Assumptions = []string{"blanks at the end of a line are not part of the property", "offsets up to 2^24 (thorough: 2^25) are explored on real buffers", "an int is 64 bits wide"}
	prefixes := []string{"", "    ", "p: ", "%d%s", "\t", "é", strings.Repeat("-", 70)}
	max := bound(r, 40, 80)
	data := make([]byte, max+300)
	for i := range data {
		data[i] = byte(i*37 + 11)
	}
	keep := append([]byte(nil), data...)
	r.Explore("all bounds", max+1, 0, func(n int, c *mc.Ctx) string {
		d := data[:n]
		pre := mc.PickOf(c, prefixes)
		for i1 := -3; i1 <= n+3; i1++ {
			c.W.State(mc.NewHash().U(uint64(n)).U(uint64(i1 + 9)).Sum())
			for i2 := -3; i2 <= n+3; i2++ {
				if m := dumpCase(c.W, fmt.Sprintf("DumpSub(%q, %d bytes, %d, %d)", pre, n, i1, i2), hex.DumpSub(pre, d, i1, i2), refDump(pre, d, i1, i2)); m != "" {
					return m
				}
			}
			if m := dumpCase(c.W, fmt.Sprintf("DumpTail(%q, %d bytes, %d)", pre, n, i1), hex.DumpTail(pre, d, i1), refDump(pre, d, n-i1, n)); m != "" {
				return m
			}
		}
		if m := dumpCase(c.W, fmt.Sprintf("Dump(%q, %d bytes)", pre, n), hex.Dump(pre, d), refDump(pre, d, 0, n)); m != "" {
			return m
		}
		if !bytes.Equal(d, keep[:n]) {
			return "the dumped data was modified"
		}
		return ""
	})
	ext := []int{math.MinInt, math.MinInt + 1, math.MinInt32, -256, -5, -1, 0, 1, 4, 15, 16, 17, 256, math.MaxInt32, math.MaxUint32, math.MaxInt - 1, math.MaxInt, 1 << 32, 1<<32 + 4, -1 << 32}
	r.Explore("extreme bounds", 3, 0, func(sh int, c *mc.Ctx) string {
		d := [][]byte{nil, {}, data[:16]}[sh]
		for _, i1 := range ext {
			for _, i2 := range ext {
				if m := dumpCase(c.W, fmt.Sprintf("DumpSub(%d bytes, %d, %d)", len(d), i1, i2), hex.DumpSub("", d, i1, i2), refDump("", d, i1, i2)); m != "" {
					return m
				}
			}
			got := hex.DumpTail("> ", d, i1)
			c.W.Step(1)
			if i1 < 0 || i1 > len(d) {
				if !strings.HasPrefix(got, "> out of range") {
					return fmt.Sprintf("DumpTail(%d bytes, %d) = %q, want the out-of-range message", len(d), i1, got)
				}
			} else if m := dumpCase(c.W, fmt.Sprintf("DumpTail(%d bytes, %d)", len(d), i1), got, refDump("> ", d, len(d)-i1, len(d))); m != "" {
				return m
			}
		}
		return ""
	})
	r.Explore("every byte value in every column", 256, 0, func(v int, c *mc.Ctx) string {
		for n := 1; n <= 9; n++ {
			for p := 0; p < n; p++ {
				d := make([]byte, n)
				d[p] = byte(v)
				if m := dumpCase(c.W, fmt.Sprintf("Dump(% x)", d), hex.Dump("", d), refDump("", d, 0, n)); m != "" {
					return m
				}
				if m := dumpCase(c.W, fmt.Sprintf("DumpSub(% x, %d, %d)", d, p, n), hex.DumpSub(" ", d, p, n), refDump(" ", d, p, n)); m != "" {
					return m
				}
			}
		}
		return ""
	})
	r.Explore("lengths", bound(r, 300, 380), 0, func(n int, c *mc.Ctx) string {
		return dumpCase(c.W, fmt.Sprintf("Dump of %d bytes", n), hex.Dump("    ", data[:min(n, len(data))]), refDump("    ", data[:min(n, len(data))], 0, min(n, len(data))))
	})
	big := make([]byte, 1<<bound(r, 24, 25)+64)
	for i := range big {
		big[i] = byte(i ^ i>>8 ^ i>>16)
	}
	var at []int
	for k := 4; 1<<k < len(big); k++ {
		for d := -9; d <= 9; d++ {
			at = append(at, 1<<k+d)
		}
	}
	for v := 0; v < 256; v++ {
		at = append(at, v<<8+3, v<<16+5)
	}
	r.Explore("large offsets", len(at), 0, func(sh int, c *mc.Ctx) string {
		i := at[sh]
		for k := 0; k <= 9; k++ {
			if m := dumpCase(c.W, fmt.Sprintf("DumpSub(big, %d, %d)", i, i+k), hex.DumpSub("", big, i, i+k), refDump("", big, i, i+k)); m != "" {
				return m
			}
			if m := dumpCase(c.W, fmt.Sprintf("DumpTail(%d bytes, %d)", i, k), hex.DumpTail("", big[:i], k), refDump("", big[:i], i-k, i)); m != "" {
				return m
			}
		}
		return ""
	})
	var longs []int
	for k := 8; k <= 21; k++ {
		longs = append(longs, 1<<k-1, 1<<k, 1<<k+1, 1<<k+6)
	}
	longs = append(longs, 999, 1000, 1001, 1021, 9999, 10000, 10001, 70001, 99999, 100001, 1000000)
	r.Explore("long dumps", len(longs), 0, func(sh int, c *mc.Ctx) string {
		n := longs[sh]
		return dumpCase(c.W, fmt.Sprintf("Dump of %d bytes", n), hex.Dump("", big[:n]), refDump("", big, 0, n))
	})
	r.Sample(refDump("", data, 3, 12))
}

func refDiff(a, b []byte) string {
	if bytes.Equal(a, b) {
		return ""
	}
	var rows []string
	cut := func(d []byte, i int) []byte {
		return d[min(i, len(d)):min(i+4, len(d))]
	}
	for i := 0; i < max(len(a), len(b)); i += 4 {
		x, y := cut(a, i), cut(b, i)
		if bytes.Equal(x, y) {
			rows = append(rows, " "+refRow(i, x))
		} else {
			rows = append(rows, "┌"+refRow(i, x), "└"+refRow(i, y))
		}
	}
	return strings.Join(rows, "\n")
}

func diffCase(w *mc.Worker, a, b []byte) string {
	w.Step(1)
	got, want := hex.DumpDiff(a, b), refDiff(a, b)
	if got != want && (got == "" || want == "" || trimLines(got) != trimLines(want)) {
		return fmt.Sprintf("DumpDiff(%s, %s):\n got %q\nwant %q", hexs(a), hexs(b), clip(got), clip(want))
	}
	return ""
}

func checkC19(r *mc.Runner) {
	r.Assumptions = []string{"blanks at the end of a line are not part of the property", "lengths beyond those enumerated behave like them"}
	all := func(alpha []byte, n int) (out [][]byte) {
		out = [][]byte{nil}
		last := out
		for ; n > 0; n-- {
			var next [][]byte
			for _, b := range last {
				for _, a := range alpha {
					next = append(next, append(append([]byte{}, b...), a))
				}
			}
			out = append(out, next...)
			last = next
		}
		return
	}
	for _, sp := range []struct {
		name  string
		alpha []byte
		n     int
	}{{"all pairs over 2 values", []byte{0, 0xff}, bound(r, 9, 11)}, {"all pairs over 4 values", []byte{0, 1, 0x1f, 0xa0}, bound(r, 5, 6)}} {
		u := all(sp.alpha, sp.n)
		r.Explore(sp.name, len(u), 0, func(sh int, c *mc.Ctx) string {
			a := append([]byte(nil), u[sh]...)
			c.W.State(mc.NewHash().Bytes(a).U(uint64(sp.n)).Sum())
			for _, b := range u {
				if m := diffCase(c.W, a, b); m != "" {
					return m
				}
			}
			if !bytes.Equal(a, u[sh]) {
				return "an argument was modified"
			}
			return ""
		})
	}
	n := bound(r, 48, 140)
	base := make([]byte, 300)
	for i := range base {
		base[i] = byte(i*29 + 7)
	}
	r.Explore("all lengths, one or two differences", n+1, 0, func(la int, c *mc.Ctx) string {
		a := base[:la]
		for lb := 0; lb <= n; lb++ {
			b := append([]byte{}, base[:lb]...)
			if m := diffCase(c.W, a, b); m != "" {
				return m
			}
			for p := 0; p < lb; p++ {
				b[p] ^= 0x10
				if m := diffCase(c.W, a, b); m != "" {
					return m
				}
				if la-lb < 6 && lb-la < 6 {
					for q := p + 1; q < lb; q++ {
						b[q] ^= 1
						if m := diffCase(c.W, a, b); m != "" {
							return m
						}
						b[q] ^= 1
					}
				}
				b[p] ^= 0x10
			}
		}
		return ""
	})
	r.Explore("every pair of byte values", 256, 0, func(v int, c *mc.Ctx) string {
		for w := 0; w < 256; w++ {
			for p := 0; p < 5; p++ {
				a, b := []byte{9, 9, 9, 9, 9}, []byte{9, 9, 9, 9, 9}
				a[p], b[p] = byte(v), byte(w)
				if m := diffCase(c.W, a, b); m != "" {
					return m
				}
			}
		}
		return ""
	})
	longs := []int{255, 256, 257, 512, 1000, 1025, 4099, 8192, 10001, 16384, 32771, 65540, 66000, 1<<17 + 1, 1<<18 + 2, 1<<19 + 3, 1<<20 - 1, 1<<20 + 4}
	r.Explore("long", len(longs), 0, func(sh int, c *mc.Ctx) string {
		n := longs[sh]
		a := make([]byte, n)
		for i := range a {
			a[i] = byte(i ^ i>>8)
		}
		for _, p := range []int{0, 3, 4, 250, n / 2, n - 1} {
			b := append([]byte{}, a...)
			if p < n {
				b[p]++
			}
			for i, cut := range []int{0, 1, 4, 5} {
				if n > 70000 && (p+i)%4 != 0 {
					continue
				}
				if m := diffCase(c.W, a, b[:n-cut]); m != "" {
					return m
				}
				if m := diffCase(c.W, b[:n-cut], a); m != "" {
					return m
				}
			}
		}
		return ""
	})
	r.Sample(refDiff(base[:9], append(append([]byte{}, base[:5]...), 1)))
}

var flagNames = []string{"InstanceRegistration", "NewIndex", "AnyIndex", "NonDefaultContext", "NetworkByteOrder"}
var reasonNames = []string{1: "Other", 2: "ParseError", 3: "ProtocolError", 4: "Timeouts", 5: "Shutdown", 6: "ByManager"}
var asnNames = map[byte]string{2: "Integer32", 4: "OctetString", 5: "Null", 6: "ObjectId", 48: "Sequence", 64: "IpAddress", 65: "Counter32", 66: "Unsigned32",
	67: "TimeTicks", 68: "Opaque", 70: "Counter64", 128: "NoSuchObject", 129: "NoSuchInstance", 130: "EndOfMibView"}
var errNames = map[int]string{}

func init() {
	for i, s := range strings.Fields("NoError TooBig NoSuchName BadValue ReadOnly GenError NoAccess WrongType WrongLength WrongEncoding WrongValue NoCreation InconsistentValue ResourceUnavailable CommitFailed UndoFailed AuthorizationError NotWritable InconsistentName") {
		errNames[i] = s
	}
	for i, s := range strings.Fields("OpenFailed NotOpened IndexWrongType IndexAlreadyAllocated IndexNonAvailable IndexNotAllocated UnsupportedContext DuplicateRegistration UnknownRegistration UnknownAgentCaps ParseError RequestDenied ProcessingError") {
		errNames[256+i] = s
	}
}

// names checks one symbolic type over its whole domain.
func names(what string, n int, f func(int) string, want func(int) string) func(*mc.Worker) string {
	return func(w *mc.Worker) string {
		seen := map[string]int{}
		for round := 0; round < 2; round++ { // the second time in another order
			for i := 0; i < n; i++ {
				v := i
				if round == 1 {
					v = n - 1 - i
				}
				w.Step(1)
				w.State(mc.NewHash().Str(what).U(uint64(v)).Sum())
				got, exp := f(v), want(v)
				if exp != "" {
					w.Outcome(what + " named")
					if got != exp {
						return fmt.Sprintf("%s %d renders %q, want %q", what, v, got, exp)
					}
				} else {
					w.Outcome(what + " fallback")
					if !hasNumber(got, v) {
						return fmt.Sprintf("%s %d renders %q, which does not carry the number", what, v, got)
					}
				}
				if o, dup := seen[got]; dup && o != v {
					return fmt.Sprintf("%s %d and %d render the same: %q", what, o, v, got)
				}
				seen[got] = v
			}
		}
		return ""
	}
}

// hasNumber: the only run of digits in s is v in decimal.
func hasNumber(s string, v int) bool {
	d := strings.TrimFunc(s, func(r rune) bool { return r < '0' || r > '9' })
	return d == strconv.Itoa(v)
}

func refFlags(f byte) (known []string, unknown []string) {
	for i := 0; i < 8; i++ {
		if f&(1<<i) != 0 {
			if i < 5 {
				known = append(known, flagNames[i])
			} else {
				unknown = append(unknown, fmt.Sprintf("%X", 1<<i))
			}
		}
	}
	return
}

func c20Funcs() []func(*mc.Worker) string {
	at := func(s []string, i int) string {
		if i < len(s) {
			return s[i]
		}
		return ""
	}
	return []func(*mc.Worker) string{
		names("PDU type", 256, func(i int) string { return agentx.PduTag(i).String() }, func(i int) string {
			if ref.Known(byte(i)) {
				return ref.Types[i].Name
			}
			return ""
		}),
		names("close reason", 256, func(i int) string { return agentx.CloseReason(i).String() }, func(i int) string { return at(reasonNames, i) }),
		names("value tag", 256, func(i int) string { return asn.Tag(i).String() }, func(i int) string { return asnNames[byte(i)] }),
		names("error", 65536, func(i int) string { return pduerror.Error(i).String() }, func(i int) string { return errNames[i] }),
		func(w *mc.Worker) string {
			seen := map[string]int{}
			for f := 0; f < 256; f++ {
				w.Step(2)
				w.State(mc.NewHash().Str("flags").U(uint64(f)).Sum())
				s := agentx.Flags(f).String()
				var sb strings.Builder
				sb.WriteString("ab")
				agentx.Flags(f).Fprint(&sb)
				if sb.String() != "ab"+s {
					return fmt.Sprintf("flags %#x: Fprint appends %q, String gives %q", f, sb.String(), s)
				}
				known, unknown := refFlags(byte(f))
				var toks []string
				if s != "" {
					toks = strings.Split(s, "|")
				}
				if len(toks) != len(known)+len(unknown) {
					return fmt.Sprintf("flags %#x render %q", f, s)
				}
				for _, k := range known {
					n := 0
					for _, t := range toks {
						if t == k {
							n++
						}
					}
					if n != 1 {
						return fmt.Sprintf("flags %#x render %q without %q", f, s, k)
					}
				}
				for _, k := range unknown {
					n := 0
					for _, t := range toks {
						if strings.HasSuffix(strings.ToUpper(t), k) && !strings.ContainsAny(strings.ToUpper(t), "GHIJKLMNOPQRSTUVWYZ") {
							n++
						}
					}
					if n != 1 {
						return fmt.Sprintf("flags %#x render %q without bit 0x%s", f, s, k)
					}
				}
				if o, dup := seen[s]; dup {
					return fmt.Sprintf("flags %#x and %#x both render %q", o, f, s)
				}
				seen[s] = f
			}
			return ""
		},
		func(w *mc.Worker) string {
			for t := 0; t < 256; t++ {
				w.Step(2)
				if agentx.PduTag(t).IsKnown() != ref.Known(byte(t)) {
					return fmt.Sprintf("PduTag(%d).IsKnown() = %v", t, agentx.PduTag(t).IsKnown())
				}
				for f := 0; f < 256; f++ {
					w.Step(1)
					allowed := byte(0)
					if ref.Known(byte(t)) {
						allowed = ref.Types[t].Flags
					}
					if got := agentx.PduTag(t).NotAllowedFlags(agentx.Flags(f)); byte(got) != byte(f)&^allowed {
						return fmt.Sprintf("PduTag(%d).NotAllowedFlags(%#x) = %#x, want %#x", t, f, byte(got), byte(f)&^allowed)
					}
				}
			}
			return ""
		},
		func(w *mc.Worker) string {
			for t := 0; t < 256; t++ {
				w.Step(2)
				_, known := asnNames[byte(t)]
				if got := asn.Tag(t).IsKnown(); got != known {
					return fmt.Sprintf("asn.Tag(%d).IsKnown() = %v", t, got)
				}
				if got := asn.Tag(t).IsValueTag(); got != ref.IsValueTag(byte(t)) {
					return fmt.Sprintf("asn.Tag(%d).IsValueTag() = %v", t, got)
				}
			}
			return ""
		},
	}
}

func checkC20(r *mc.Runner) {
	r.Assumptions = []string{"the fallback format is free as long as it carries the number (for flags: the bit in hex) and is distinct"}
	fs := c20Funcs()
	consts := func(w *mc.Worker) string {
		// the exported constants carry the protocol's numbers
		tags := []agentx.PduTag{agentx.TagOpen, agentx.TagClose, agentx.TagRegister, agentx.TagUnregister, agentx.TagGet, agentx.TagGetNext, agentx.TagGetBulk,
			agentx.TagTestSet, agentx.TagCommitSet, agentx.TagUndoSet, agentx.TagCleanupSet, agentx.TagNotify, agentx.TagPing, agentx.TagIndexAllocate,
			agentx.TagIndexDeallocate, agentx.TagAddAgentCaps, agentx.TagRemoveAgentCaps, agentx.TagResponse}
		for i, t := range tags {
			w.Step(1)
			if int(t) != i+1 {
				return fmt.Sprintf("PDU type constant %s has value %d", ref.Types[i+1].Name, t)
			}
		}
		flags := []agentx.Flags{agentx.FlagInstanceRegistration, agentx.FlagNewIndex, agentx.FlagAnyIndex, agentx.FlagNonDefaultContext, agentx.FlagNetworkByteOrder}
		for i, f := range flags {
			if byte(f) != 1<<i {
				return fmt.Sprintf("flag constant %s has value %#x", flagNames[i], byte(f))
			}
		}
		rs := []agentx.CloseReason{agentx.CloseReasonOther, agentx.CloseReasonParseError, agentx.CloseReasonProtocolError, agentx.CloseReasonTimeouts, agentx.CloseReasonShutdown, agentx.CloseReasonByManager}
		for i, f := range rs {
			if int(f) != i+1 {
				return fmt.Sprintf("close reason constant %s has value %d", reasonNames[i+1], f)
			}
		}
		at := map[asn.Tag]byte{asn.TagInteger32: 2, asn.TagOctetString: 4, asn.TagNull: 5, asn.TagObjectId: 6, asn.TagSequence: 48, asn.TagIpAddress: 64, asn.TagCounter32: 65,
			asn.TagGauge32: 66, asn.TagTimeTicks: 67, asn.TagOpaque: 68, asn.TagCounter64: 70, asn.TagNoSuchObject: 128, asn.TagNoSuchInstance: 129, asn.TagEndOfMibView: 130}
		for t, v := range at {
			if byte(t) != v {
				return fmt.Sprintf("value tag constant %s has value %d", asnNames[v], t)
			}
		}
		es := []pduerror.Error{pduerror.NoError, pduerror.TooBig, pduerror.NoSuchName, pduerror.BadValue, pduerror.ReadOnly, pduerror.GenError, pduerror.NoAccess, pduerror.WrongType,
			pduerror.WrongLength, pduerror.WrongEncoding, pduerror.WrongValue, pduerror.NoCreation, pduerror.InconsistentValue, pduerror.ResourceUnavailable, pduerror.CommitFailed,
			pduerror.UndoFailed, pduerror.AuthorizationError, pduerror.NotWritable, pduerror.InconsistentName}
		for i, e := range es {
			if int(e) != i {
				return fmt.Sprintf("error constant %s has value %d", errNames[i], int(e))
			}
		}
		es = []pduerror.Error{pduerror.OpenFailed, pduerror.NotOpened, pduerror.IndexWrongType, pduerror.IndexAlreadyAllocated, pduerror.IndexNonAvailable, pduerror.IndexNotAllocated,
			pduerror.UnsupportedContext, pduerror.DuplicateRegistration, pduerror.UnknownRegistration, pduerror.UnknownAgentCaps, pduerror.ParseError, pduerror.RequestDenied, pduerror.ProcessingError}
		for i, e := range es {
			if int(e) != 256+i {
				return fmt.Sprintf("error constant %s has value %d", errNames[256+i], int(e))
			}
		}
		return ""
	}
	fs = append(fs, consts)
	r.Explore1("whole domains", len(fs), 0, func(sh int, c *mc.Ctx) string { return fs[sh](c.W) })
	r.Sample("all 256 PDU types x 256 flag bytes, 65536 error codes, 256 close reasons and value tags")
}

// refValue is the textual form of a valid value.
func refValue(t byte, v any) string {
	if !ref.ValueOK(t, v) {
		return "?"
	}
	if ref.Valueless(t) {
		return ""
	}
	switch x := v.(type) {
	case int32:
		return strconv.FormatInt(int64(x), 10)
	case uint32:
		return strconv.FormatUint(uint64(x), 10)
	case uint64:
		return strconv.FormatUint(x, 10)
	case string:
		return x
	case []uint32:
		return ostr(x)
	case [4]byte:
		return fmt.Sprintf("%d.%d.%d.%d", x[0], x[1], x[2], x[3])
	case []byte:
		s := make([]string, len(x))
		for i, b := range x {
			s[i] = strconv.Itoa(int(b))
		}
		return "{" + strings.Join(s, " ") + "}"
	}
	return "?"
}

func valueCase(w *mc.Worker, t byte, v any) string {
	w.Step(3)
	tag := asn.Tag(t)
	valid := tag.IsValidValue(v)
	p := agentx.Pdu{Tag: agentx.TagNotify, Flags: agentx.Flags(16 * (t & 1)), Params: agentx.NoParams{}, Varbinds: []asn.Varbind{{Oid: []uint32{1, 3}, Tag: tag, Value: v}}}
	b, ok := agentx.EncodePdu(p)
	if ok != valid {
		return fmt.Sprintf("tag %d, value %T(%v): valid=%v but encodes=%v", t, v, v, valid, ok)
	}
	if _, okd := agentx.EncodePduDbg(p, &discard{}); okd != valid {
		return fmt.Sprintf("tag %d, value %T(%v): valid=%v but encodes (debug)=%v", t, v, v, valid, okd)
	}
	if ok && len(b) >= 20 {
		if q, hok := agentx.DecodePduHeader(b[:20]); hok && agentx.DecodePduPayload(&q, b[20:]) {
			for _, x := range q.Varbinds {
				if !x.Tag.IsValidValue(x.Value) {
					return fmt.Sprintf("tag %d: decoding gave %T(%v), which is declared invalid", t, x.Value, x.Value)
				}
			}
		}
		w.Outcome("valid")
	} else {
		w.Outcome("invalid")
	}
	var sb strings.Builder
	sb.WriteString("<")
	tag.Fprint(&sb, v)
	want := "?"
	if valid {
		want = refValue(t, v)
	}
	if sb.String() != "<"+want {
		return fmt.Sprintf("tag %d, value %T(%v) is formatted %q, want %q", t, v, v, clip(sb.String()), clip("<"+want))
	}
	return ""
}

func checkC21(r *mc.Runner) {
	r.Assumptions = []string{"Go values are explored per dynamic type (49 kinds, including named types, arrays of other lengths, pointers and functions); OIDs with up to 128 sub-identifiers"}
	vals := allValues()
	r.Explore("every tag x every kind of value", 256, 0, func(t int, c *mc.Ctx) string {
		c.W.State(mc.NewHash().U(uint64(t)).Sum())
		for _, v := range vals {
			if m := valueCase(c.W, byte(t), v); m != "" {
				return m
			}
		}
		return ""
	})
	r.Explore("values of every type", len(vtOrder), 1, func(sh int, c *mc.Ctx) string {
		t := vtOrder[sh]
		v := gen{c: c}.value(t)
		if b, ok := v.([]uint32); ok && !ref.OidOK(b) {
			return ""
		}
		c.W.State(mc.NewHash().U(uint64(t)).Str(fmt.Sprintf("%T%v", v, v)).Sum())
		return valueCase(c.W, t, v)
	})
	r.Explore("opaque and address bytes", 256, 0, func(x int, c *mc.Ctx) string {
		for y := 0; y < 256; y++ {
			for _, tv := range []struct {
				t byte
				v any
			}{{68, []byte{byte(x), byte(y)}}, {64, [4]byte{byte(x), byte(y), 9, byte(x ^ y)}}, {65, uint32(x)<<24 | uint32(y)}, {2, int32(uint32(x)<<24 | uint32(y)<<8)}, {70, uint64(x)<<56 | uint64(y)<<28}} {
				if m := valueCase(c.W, tv.t, tv.v); m != "" {
					return m
				}
			}
			if got := ipa.String([4]byte{byte(x), byte(y), byte(y), byte(x)}); got != fmt.Sprintf("%d.%d.%d.%d", x, y, y, x) {
				return fmt.Sprintf("address %d.%d.%d.%d is formatted %q", x, y, y, x, got)
			}
		}
		return ""
	})
	// whatever decoding accepts carries valid values
	payloadSpaces(r, 0, func(h agentx.Pdu, b []byte, w *mc.Worker) string {
		if !ref.Types[byte(h.Tag)].Varbinds {
			return ""
		}
		w.Step(1)
		if !agentx.DecodePduPayload(&h, b) {
			return ""
		}
		for _, x := range h.Varbinds {
			if !x.Tag.IsValidValue(x.Value) {
				return fmt.Sprintf("decoding %s gave varbind tag %d with %T(%v), which is declared invalid", hexs(b), byte(x.Tag), x.Value, x.Value)
			}
		}
		return ""
	})
	r.Sample("tag 66 with uint32(5), int32(5), nil, [5]byte{1}, func() {}")
}

func refVarbind(v asn.Varbind) string {
	name := asnNames[byte(v.Tag)]
	if name == "" {
		name = v.Tag.String()
	}
	return "{" + ostr(v.Oid) + " " + name + ": " + refValue(byte(v.Tag), v.Value) + "}"
}

func refRange(s agentx.SearchRange) string {
	return "{StartOid: " + ostr(s.StartOid) + " EndOid: " + ostr(s.EndOid) + " StartIncluded: " + strconv.Itoa(int(s.StartIncluded)) + "}"
}

func refRender(p agentx.Pdu, depth int) string {
	ind := func(d int) string {
		if d > 8 || d < 0 {
			d = 8
		}
		return strings.Repeat("    ", d)
	}
	var sb strings.Builder
	line := func(d int, name, val string) { sb.WriteString("\n" + ind(d) + name + ": " + val) }
	oids := func(o []uint32) string {
		if len(o) == 0 {
			return "<empty>"
		}
		return ostr(o)
	}
	u := func(x uint64) string { return strconv.FormatUint(x, 10) }
	line(depth, "Tag", p.Tag.String())
	line(depth, "Flags", p.Flags.String())
	line(depth, "SessionId", u(uint64(p.SessionId)))
	line(depth, "TransactionId", u(uint64(p.TransactionId)))
	line(depth, "PacketId", u(uint64(p.PacketId)))
	line(depth, "PayloadSize", strconv.Itoa(int(p.PayloadSize)))
	line(depth, "Context", p.Context)
	d := depth + 1
	line(depth, "Params", "")
	switch x := p.Params.(type) {
	case nil:
		sb.WriteString("<nil>")
	case agentx.OpenParams:
		line(d, "Timeout", u(uint64(x.Timeout)))
		line(d, "Oid", oids(x.Oid))
		line(d, "Description", x.Description)
	case agentx.CloseParams:
		line(d, "Reason", x.Reason.String())
	case agentx.RegisterParams:
		line(d, "Timeout", u(uint64(x.Timeout)))
		line(d, "Priority", u(uint64(x.Priority)))
		line(d, "RangeSubid", u(uint64(x.RangeSubid)))
		line(d, "Subtree", oids(x.Subtree))
		line(d, "UpperBound", u(uint64(x.UpperBound)))
	case agentx.UnregisterParams:
		line(d, "Priority", u(uint64(x.Priority)))
		line(d, "RangeSubid", u(uint64(x.RangeSubid)))
		line(d, "Subtree", oids(x.Subtree))
		line(d, "UpperBound", u(uint64(x.UpperBound)))
	case agentx.GetBulkParams:
		line(d, "NonRepeaters", strconv.Itoa(int(x.NonRepeaters)))
		line(d, "MaxRepeatitions", strconv.Itoa(int(x.MaxRepeatitions)))
	case agentx.AddAgentCapsParams:
		line(d, "Oid", oids(x.Oid))
		line(d, "Description", x.Description)
	case agentx.RemoveAgentCapsParams:
		line(d, "Oid", oids(x.Oid))
	case agentx.ResponseParams:
		line(d, "SysUpTime", u(uint64(x.SysUpTime)))
		line(d, "Error", x.Error.String())
		line(d, "Index", strconv.Itoa(int(x.Index)))
	}
	line(depth, "Ranges", "")
	if len(p.Ranges) == 0 {
		sb.WriteString("<empty>")
	}
	for _, s := range p.Ranges {
		sb.WriteString("\n" + ind(d) + refRange(s))
	}
	line(depth, "Varbinds", "")
	if len(p.Varbinds) == 0 {
		sb.WriteString("<empty>")
	}
	for _, v := range p.Varbinds {
		sb.WriteString("\n" + ind(d) + refVarbind(v))
	}
	return sb.String()[1:]
}

func outdent(s string) string {
	l := strings.Split(s, "\n")
	for i := range l {
		l[i] = strings.Trim(l[i], " ")
	}
	return strings.Join(l, "\n")
}

func renderCase(w *mc.Worker, p agentx.Pdu, depth int) (got, msg string) {
	w.Step(2)
	got = p.String(depth)
	want := refRender(p, depth)
	same := trimLines(got) == trimLines(want)
	if !same && depth > 6 { // how far very deep parts are indented is not fixed
		same = outdent(got) == outdent(want)
	}
	if !same {
		return "", fmt.Sprintf("rendering of %s at depth %d:\n got %q\nwant %q", ref.Show(p), depth, clip(got), clip(want))
	}
	if again := p.String(depth); again != got {
		return "", "rendering the same PDU twice gives different text: " + ref.Show(p)
	}
	return got, ""
}

func checkC23(r *mc.Runner) {
	r.Assumptions = []string{"blanks at the end of a line are not part of the property", "how far parts nested deeper than 6 levels are indented is not part of the property",
		"parameters are one of the package's own parameter types or nil (the interface is closed)"}
	type seenT struct {
		mu sync.Mutex
		m  map[string]string
	}
	var seen [64]seenT
	for i := range seen {
		seen[i].m = map[string]string{}
	}
	distinct := func(got, key string) string {
		s := &seen[mc.NewHash().Str(got).Sum()>>58]
		s.mu.Lock()
		defer s.mu.Unlock()
		if o, ok := s.m[got]; ok {
			if o != key {
				return fmt.Sprintf("two PDUs render the same:\n%s\n%s\n%q", o, key, clip(got))
			}
		} else if len(s.m) < 60000 {
			s.m[got] = key
		}
		return ""
	}
	r.Explore("fields", len(tagFlags1), bound(r, 2, 3), func(sh int, c *mc.Ctx) string {
		x := tagFlags1[sh]
		p := gen{c: c, lite: true}.pdu(x.tag, x.flags)
		_, m := renderCase(c.W, p, c.W.Depth()%3)
		return m
	})
	big := bigPdus(1 << 21)
	r.Explore("large PDUs", len(big), 0, func(sh int, c *mc.Ctx) string {
		_, m := renderCase(c.W, big[sh].mk(), sh%3)
		return m
	})
	r.Explore("fields, printable strings, distinct", len(tagFlags1), bound(r, 1, 2), func(sh int, c *mc.Ctx) string {
		x := tagFlags1[sh]
		p := gen{c: c, tame: true, lite: true}.pdu(x.tag, x.flags)
		got, m := renderCase(c.W, p, 0)
		if m == "" {
			c.W.State(mc.NewHash().Str(got).Sum())
			m = distinct(got, strings.NewReplacer("<nil>(<nil>)", "", "[]", "").Replace(showAll(p)))
		}
		return m
	})
	// all header bytes, any parameters with any type, any depth
	depths := []int{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 16, 31, 32, 33, 100, 255, 256, 1000, 1 << 20, 1 << 30, math.MaxInt32, math.MaxInt32 + 1, math.MaxInt - 1, math.MaxInt, 1 << 61, 1 << 62, 3 << 61}
	kinds := []int{ref.KNone, ref.KOpen, ref.KClose, ref.KRegister, ref.KUnregister, ref.KBulk, ref.KAddCaps, ref.KRemoveCaps, ref.KResponse}
	r.Explore("any type, flags, parameters and depth", 256, 0, func(sh int, c *mc.Ctx) string {
		p := agentx.Pdu{Tag: agentx.PduTag(sh), Flags: agentx.Flags(sh * 7), SessionId: uint32(sh), PayloadSize: int32(sh) - 99, Context: "c"}
		k := c.Pick(len(kinds) + 1)
		if k < len(kinds) {
			p.Params = defaultParams(kinds[k])
		}
		switch c.Pick(3) {
		case 1:
			p.Ranges = []agentx.SearchRange{{}, {StartOid: []uint32{1, 2}, StartIncluded: byte(sh)}}
			p.Varbinds = []asn.Varbind{{}, vb(byte(sh), []uint32{3}, "x"), vb(byte(sh), nil, nil), vb(2, nil, "wrong")}
		case 2:
			p.Varbinds = []asn.Varbind{vb(68, []uint32{1}, []byte{0, 255}), vb(64, []uint32{1, 2}, [4]byte{1, 2, 3, 4}), vb(6, nil, []uint32{})}
		}
		for _, d := range depths {
			if _, m := renderCase(c.W, p, d); m != "" {
				return m
			}
		}
		return ""
	})
	vals := allValues()
	r.Explore("varbinds of any tag and value", 256, 0, func(t int, c *mc.Ctx) string {
		for _, v := range vals {
			for _, o := range [][]uint32{nil, {0}, {1, 3, 6, 1}, longOid(nil, 130)} {
				x := asn.Varbind{Oid: o, Tag: asn.Tag(t), Value: v}
				c.W.Step(2)
				if got := x.String(); got != refVarbind(x) {
					return fmt.Sprintf("varbind tag %d value %T(%v) renders %q, want %q", t, v, v, clip(got), clip(refVarbind(x)))
				}
				var sb strings.Builder
				sb.WriteString("z")
				x.Fprint(&sb)
				if sb.String() != "z"+x.String() {
					return "Varbind.Fprint and String differ"
				}
			}
		}
		return ""
	})
	ro := universe([]uint32{0, 1, 10, 0xffffffff}, bound(r, 2, 3))
	r.Explore("ranges", len(ro), 0, func(sh int, c *mc.Ctx) string {
		for i, b := range ro {
			for _, inc := range []byte{0, 1, 2, byte(i), 255} {
				x := agentx.SearchRange{StartOid: ro[sh], EndOid: b, StartIncluded: inc}
				c.W.Step(2)
				if got := x.String(); got != refRange(x) {
					return fmt.Sprintf("range renders %q, want %q", got, refRange(x))
				}
				var sb strings.Builder
				sb.WriteString("z")
				x.Fprint(&sb)
				if sb.String() != "z"+x.String() {
					return "SearchRange.Fprint and String differ"
				}
			}
		}
		return ""
	})
	r.Explore("pointers as parameters", 2, 0, func(sh int, c *mc.Ctx) string { // allowed by the interface: must not panic
		op := &agentx.OpenParams{Timeout: 3, Oid: []uint32{1, 2}}
		if sh == 1 {
			op = nil
		}
		p := agentx.Pdu{Tag: 1, Params: op}
		if p.String(0) != p.String(0) {
			return "not deterministic"
		}
		c.W.Step(2)
		return ""
	})
	r.Sample(refRender(menu()[2], 1))
}

// showAll is ref.Show without its limits.
func showAll(p agentx.Pdu) string {
	s := fmt.Sprintf("%d %d %d %d %d %d %q %T%+v", p.Tag, p.Flags, p.SessionId, p.TransactionId, p.PacketId, p.PayloadSize, p.Context, p.Params, p.Params)
	for _, r := range p.Ranges {
		s += fmt.Sprintf(" {%v %v %d}", r.StartOid, r.EndOid, r.StartIncluded)
	}
	for _, v := range p.Varbinds {
		s += " " + refVarbind(v)
	}
	return s
}
