package main

import (
	"fmt"
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/generics"
	"github.com/alexispb/mygosnmp/oid"

	"verif/mc"
	"verif/ref"
)

// Explorations beyond the usual sizes: OIDs of up to a million
// sub-identifiers, trees of tens of thousands of nodes or thousands of levels.

func init() {
	add := func(id string, f func(r *mc.Runner)) {
		old := checks[id]
		checks[id] = func(r *mc.Runner) {
			old(r)
			f(r)
		}
	}
	add("C03", hugeOidVerdicts)
	add("C11", hugeCompare)
	add("C12", hugeText)
	add("C14", hugeTrees14)
	add("C15", hugeTrees15)
	add("C16", hugeTrees16)
	add("C21", hugeValues)
	add("C27", hugeFprint)
	add("C28", hugeMinMax)
}

// lengths around the thresholds of implementations.
var hugeLens = []int{129, 200, 254, 255, 256, 257, 258, 299, 300, 301, 383, 384, 385, 500, 511, 512, 513, 514, 640, 700, 999, 1000, 1001, 1023, 1024, 1025, 1500, 2000, 2047, 2048, 2049, 3000,
	4095, 4096, 4097, 5000, 8191, 8192, 8193, 9999, 10000, 10001, 16383, 16384, 16385, 32767, 32768, 32769, 65535, 65536, 65537, 65538, 65663, 65664, 65665, 65666, 100000, 131071, 131072, 131073, 1 << 20}

func brief(s string) string {
	if len(s) > 600 {
		return s[:300] + " ... " + s[len(s)-300:]
	}
	return s
}

// cuts are positions of an OID of n sub-identifiers.
func cuts(n int) (out []int) {
	for _, k := range append([]int{0, 1, 2, 3, 4, 5, 7, 8, 15, 16, 31, 32, 63, 64, 100, 127, 128}, hugeLens...) {
		if k < n-3 {
			out = append(out, k)
		}
	}
	for k := n - 3; k < n; k++ {
		if k >= 0 {
			out = append(out, k)
		}
	}
	return
}

func hugeCompare(r *mc.Runner) {
	r.Explore("OIDs of up to a million sub-identifiers", len(hugeLens), 0, func(sh int, c *mc.Ctx) string {
		n := hugeLens[sh]
		a := longOid(nil, n)
		ks := cuts(n)
		if n > 1<<17 {
			ks = append(ks[:4:4], ks[len(ks)-6:]...)
		}
		b := append([]uint32(nil), a...)
		if m := cmpCase(a, b, c.W); m != "" {
			return brief(m)
		}
		for _, k := range ks {
			for _, d := range []uint32{1, 0xffffffff, 0x80000000} {
				b[k] += d
				m := cmpCase(a, b, c.W) + cmpCase(b, a, c.W)
				if m == "" && k > 0 {
					m = cmpCase(a, b[:k+1], c.W) + cmpCase(b[:k+1], a, c.W) + cmpCase(a, b[:k], c.W) + cmpCase(a[:k], b, c.W)
				}
				b[k] -= d
				if m != "" {
					return fmt.Sprintf("%d sub-identifiers, different at %d: %s", n, k, brief(m))
				}
			}
			if m := cmpCase(a, a[:k], c.W) + cmpCase(a[:k], a, c.W); m != "" {
				return fmt.Sprintf("%d sub-identifiers and the first %d of them: %s", n, k, brief(m))
			}
		}
		c.W.State(mc.NewHash().U(uint64(n)).Sum())
		return ""
	})
}

func hugeText(r *mc.Runner) {
	r.Explore("OIDs and texts of up to a million sub-identifiers", len(hugeLens), 0, func(sh int, c *mc.Ctx) string {
		n := hugeLens[sh]
		for i, a := range [][]uint32{longOid(nil, n), make([]uint32, n)} {
			if m := textCase(a, c.W); m != "" {
				return fmt.Sprintf("%d sub-identifiers: %s", n, brief(m))
			}
			s := ostr(a)
			for _, t := range []string{s, "." + s, s + ".", strings.Repeat("0", n) + "7", "1." + strings.Repeat("0", n), strings.Repeat("9", n), strings.Repeat(".", n), s[:len(s)-1] + "x"} {
				if m := parseCase(t, c.W); m != "" {
					return fmt.Sprintf("text %d of %d: %s", i, n, brief(m))
				}
			}
		}
		c.W.State(mc.NewHash().U(uint64(n)).Sum())
		return ""
	})
}

func hugeValues(r *mc.Runner) {
	lens := []int{129, 200, 255, 256, 257, 300, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048, 4095, 4096, 4097, 10000, 65535, 65536, 65537, 100000, 1 << 20}
	r.Explore("long values", len(lens), 0, func(sh int, c *mc.Ctx) string {
		n := lens[sh]
		b := make([]byte, n)
		for i := range b {
			b[i] = byte(i*7 + i/256)
		}
		if m := valueCase(c.W, 68, b) + valueCase(c.W, 4, string(b)) + valueCase(c.W, 4, textOf(n)); m != "" {
			return brief(m)
		}
		if n <= 133 {
			return brief(valueCase(c.W, 6, append([]uint32{1, 3, 6, 1, 9}, make([]uint32, 123)...)))
		}
		return ""
	})
}

func hugeFprint(r *mc.Runner) {
	r.Explore("long OIDs and values", len(hugeLens), 0, func(sh int, c *mc.Ctx) string {
		n := hugeLens[sh]
		o := longOid(nil, n)
		b := []byte(textOf(n))
		var sb strings.Builder
		sb.WriteString("x")
		oid.Fprint(&sb, o)
		if got, want := sb.String(), "x"+oid.String(o); got != want {
			return fmt.Sprintf("%d sub-identifiers: Fprint appends %s, String gives %s", n, brief(got), brief(want))
		}
		rg := agentx.SearchRange{StartOid: o, EndOid: o[1:], StartIncluded: 1}
		for _, v := range []asn.Varbind{vb(6, o, o[n/2:]), vb(4, o[:3], string(b)), vb(68, o[:7], b)} {
			c.W.Step(2)
			sb.Reset()
			rg.Fprint(&sb)
			v.Fprint(&sb)
			if got, want := sb.String(), rg.String()+v.String(); got != want {
				return fmt.Sprintf("values of %d elements: Fprint appends %s, String gives %s", n, brief(got), brief(want))
			}
		}
		c.W.State(mc.NewHash().U(uint64(n)).Sum())
		return ""
	})
}

func hugeMinMax(r *mc.Runner) {
	r.Explore("long strings", 2, 0, func(sh int, c *mc.Ctx) string {
		for _, n := range append([]int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15, 16, 17, 18, 24, 31, 32, 33, 48, 63, 64, 65, 100, 127, 128}, hugeLens...) {
			s := textOf(n)
			list := []string{"", s, s + "\x00", s + "a", s + "b", s[:n-1], s[:n-1] + "\x00", s[:n-1] + "\xff", s[:n/2] + "\xff" + s[n/2:], s[:n/2] + "\x00", "\xff"}
			for _, a := range list {
				for _, b := range list {
					c.W.Step(2)
					lo, hi := a, b
					if b < a {
						lo, hi = b, a
					}
					var x, y string
					if sh == 0 {
						x, y = generics.Min(a, b), generics.Max(a, b)
					} else {
						x, y = string(generics.Min(myString(a), myString(b))), string(generics.Max(myString(a), myString(b)))
					}
					if x != lo || y != hi {
						return fmt.Sprintf("Min or Max of %q and %q is wrong", brief(a), brief(b))
					}
				}
			}
			c.W.State(mc.NewHash().U(uint64(n)).U(uint64(sh)).Sum())
		}
		return ""
	})
}

func hugeOidVerdicts(r *mc.Runner) {
	r.Explore("OIDs of up to a million sub-identifiers", len(hugeLens), 0, func(sh int, c *mc.Ctx) string {
		for _, n := range []int{hugeLens[sh], hugeLens[sh] + 5, hugeLens[sh] + 60} {
			for _, o := range [][]uint32{longOid(nil, n), longOid([]uint32{1, 3, 6, 1, 7}, n-5)} {
				short := []uint32{1, 3, 6, 1, 2}
				for i, p := range []agentx.Pdu{
					{Tag: 1, Params: agentx.OpenParams{Oid: o}},
					{Tag: 3, Params: agentx.RegisterParams{Subtree: o}},
					{Tag: 4, Params: agentx.UnregisterParams{Subtree: o, RangeSubid: 1}},
					{Tag: 16, Params: agentx.AddAgentCapsParams{Oid: o}},
					{Tag: 17, Params: agentx.RemoveAgentCapsParams{Oid: o}},
					{Tag: 5, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: o}}},
					{Tag: 6, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: short}, {StartOid: short, EndOid: o}}},
					{Tag: 12, Params: agentx.NoParams{}, Varbinds: []asn.Varbind{vb(2, o, int32(1))}},
					{Tag: 18, Params: agentx.ResponseParams{}, Varbinds: []asn.Varbind{vb(2, short, int32(1)), vb(6, short, o)}},
				} {
					if n > 1<<17 && i%4 != 0 {
						continue
					}
					p.Flags = agentx.Flags(i % 2 * ref.FNbo)
					if m := checkVerdict(p, c.W); m != "" {
						return fmt.Sprintf("an OID of %d sub-identifiers: %s", n, brief(m))
					}
				}
			}
		}
		c.W.State(mc.NewHash().U(uint64(hugeLens[sh])).Sum())
		return ""
	})
}

// hugeTree is a shape of a large tree; each lists the OIDs in the order of insertion.
type hugeTree struct {
	name string
	n    int
	oids func(f func([]uint32))
}

func hugeShapes(r *mc.Runner) (out []hugeTree) {
	widths := []int{300, 400, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2047, 2048, 2049, 4095, 4096, 4097, 10001, 32769, 65537}
	if r.Thorough() {
		widths = append(widths, 16385, 131073)
	}
	for _, n := range widths {
		for how, name := range []string{"ascending", "descending", "mixed"} {
			if n > 5000 && how == 1 && !r.Thorough() {
				continue
			}
			for t, top := range [][]uint32{{}, {1, 3, 6, 1}} {
				if n > 5000 && t != how%2 && !r.Thorough() {
					continue
				}
				n, how, top := n, how, top
				out = append(out, hugeTree{fmt.Sprintf("%d %s children of %q", n, name, ostr(top)), n, func(f func([]uint32)) {
					for i := 0; i < n; i++ {
						j := i
						switch how {
						case 1:
							j = n - 1 - i
						case 2:
							j = int(uint64(i) * 7919 % uint64(n))
						}
						q := append(append([]uint32{}, top...), uint32(j)*0xfffd+2)
						if j%3 == 1 {
							q = append(q, 5)
						}
						f(q)
					}
				}})
			}
		}
	}
	levels := []int{255, 256, 257, 300, 511, 512, 513, 1000, 1023, 1024, 1025, 2049, 4097}
	if r.Thorough() {
		levels = append(levels, 10001, 33000)
	}
	for _, d := range levels {
		d := d
		out = append(out, hugeTree{fmt.Sprintf("%d levels", d), d, func(f func([]uint32)) {
			full := longOid(nil, d)
			f(full)
			for i, k := range cuts(d) {
				q := append([]uint32{}, full[:k+1]...)
				q[k] += uint32(1 - i%2*2)
				f(q)
				if i%3 == 0 {
					f(append(q, 4, 4))
				}
			}
		}})
	}
	grid := func(a, depth int) {
		n := 1
		for i := 0; i < depth; i++ {
			n *= a
		}
		out = append(out, hugeTree{fmt.Sprintf("%d children on %d levels", a, depth), n, func(f func([]uint32)) {
			for i := 0; i < n; i++ {
				q := make([]uint32, depth)
				for k, j := depth-1, i; k >= 0; k, j = k-1, j/a {
					q[k] = uint32(j%a)*3 + 1
				}
				f(q)
			}
		}})
	}
	grid(260, 2)
	grid(41, 3)
	grid(4, 8)
	return
}

func (x *tm) grow(h hugeTree) (all [][]uint32, msg string) {
	x.noLog = true
	h.oids(func(q []uint32) {
		if msg == "" {
			msg = x.add(q)
			all = append(all, q)
		}
	})
	return
}

func hugeTrees14(r *mc.Runner) {
	hs := hugeShapes(r)
	r.Explore("large trees", len(hs), 0, func(sh int, c *mc.Ctx) string {
		x := newTM(c.W, nil)
		all, m := x.grow(hs[sh])
		if m == "" {
			m = x.check()
		}
		// once more: everything is there
		for i := 0; m == "" && i < len(all); i += 7 {
			m = x.add(all[i])
		}
		for i := 0; m == "" && i < len(all); i += 3 {
			m = x.remove(all[i])
			if m == "" && i%2 == 0 {
				m = x.remove(all[i])
			}
		}
		if m == "" {
			m = x.check()
		}
		for i := len(all) - 1; m == "" && i >= 0; i -= 2 {
			m = x.add(all[i])
		}
		if m == "" {
			m = x.check()
		}
		// whole subtrees
		for i := 0; m == "" && i < len(all); i += 1 + len(all)/5 {
			q := all[i]
			m = x.remove(q[:(len(q)+1)/2])
		}
		if m == "" {
			m = x.check()
		}
		if m == "" {
			m = x.clear() + x.check()
		}
		for i := 0; m == "" && i < len(all); i += 11 {
			m = x.add(all[i])
		}
		if m == "" {
			m = x.check()
		}
		if m != "" {
			return hs[sh].name + ": " + brief(m)
		}
		c.W.State(mc.NewHash().Str(hs[sh].name).Sum())
		return ""
	})
}

// hugeNext compares get-next by position in the sorted leaves.
func hugeNext(x *tm, ls []leaf, a, b []uint32, incl bool) string {
	lo, hi := 0, len(ls)
	for lo < hi {
		if k := (lo + hi) / 2; refCompare(ls[k].o, a) < 0 || !incl && refCompare(ls[k].o, a) == 0 {
			lo = k + 1
		} else {
			hi = k
		}
	}
	var want *oid.Node
	if lo < len(ls) && (len(b) == 0 || refCompare(ls[lo].o, b) < 0) {
		want = ls[lo].p
	}
	x.w.Step(1)
	if x.t.GetNextNode(a, b, incl) != want {
		return fmt.Sprintf("%d leaves: GetNext(%q, %q, %v) is not leaf %d of %d", len(ls), brief(ostr(a)), brief(ostr(b)), incl, lo+1, len(ls))
	}
	return ""
}

func hugeTrees15(r *mc.Runner) {
	hs := hugeShapes(r)
	r.Explore("large trees", len(hs), 0, func(sh int, c *mc.Ctx) string {
		h := hs[sh]
		x := newTM(c.W, nil)
		if _, m := x.grow(h); m != "" {
			return "" // C14
		}
		ls := x.leaves()
		var at []int
		for _, k := range append([]int{0, 1, 2, 255, 256, 257, 1000, 1023, 1024, 1025, 4095, 4096, 4097, 32766, 32767, 32768, 65534, 65535, 65536, len(ls) / 2}, len(ls)-3, len(ls)-2, len(ls)-1) {
			if k >= 0 && k < len(ls) {
				at = append(at, k)
			}
		}
		var us [][]uint32
		for _, k := range at {
			q := ls[k].o
			n := len(q) - 1
			up, dn := append([]uint32{}, q...), append([]uint32{}, q...)
			up[n]++
			dn[n]--
			us = append(us, q, up, dn, append(append([]uint32{}, q...), 0), q[:n])
		}
		us = append(us, nil, []uint32{1}, []uint32{0xffffffff, 1})
		step := 1
		if len(ls) > 5000 {
			step = 3
		}
		for i, a := range us {
			for j := i % step; j < len(us); j += step {
				for _, incl := range []bool{false, true} {
					if m := hugeNext(x, ls, a, us[j], incl); m != "" {
						return h.name + ": " + m
					}
				}
			}
			if m := hugeNext(x, ls, a, nil, false) + hugeNext(x, ls, a, nil, true); m != "" {
				return h.name + ": " + m
			}
		}
		c.W.State(mc.NewHash().Str(h.name).Sum())
		if len(ls) > 5000 && len(x.root.kids) > 5000 || h.n > 5000 && strings.Contains(h.name, "1.3.6.1") {
			return "" // every step of the walk looks at every child
		}
		if m := walkCase(x, ls); m != "" {
			return h.name + ": " + brief(m)
		}
		return ""
	})
}

func hugeTrees16(r *mc.Runner) {
	hs := hugeShapes(r)
	r.Explore("large trees", len(hs), 0, func(sh int, c *mc.Ctx) string {
		h := hs[sh]
		x := newTM(c.W, nil)
		if _, m := x.grow(h); m != "" {
			return "" // C14
		}
		ls := x.leaves()
		var kept [][]uint32
		i, msg := 0, ""
		x.t.ForRangeLeaves(func(q []uint32, n *oid.Node) {
			c.W.Step(1)
			switch {
			case msg != "":
			case i >= len(ls):
				msg = "the function was called after the last leaf"
			case !ref.OidEq(q, ls[i].o):
				msg = fmt.Sprintf("call %d of %d: OID %s, want %s", i+1, len(ls), ostr(q), ostr(ls[i].o))
			case n != ls[i].p:
				msg = fmt.Sprintf("call %d of %d (%s): wrong node", i+1, len(ls), ostr(q))
			}
			i++
			kept = append(kept, q)
		})
		if msg == "" && i != len(ls) {
			msg = fmt.Sprintf("the function was called for %d of %d leaves", i, len(ls))
		}
		for k := 0; msg == "" && k < len(kept); k++ {
			if !ref.OidEq(kept[k], ls[k].o) {
				msg = fmt.Sprintf("the OID kept from call %d is now %s", k+1, ostr(kept[k]))
			}
		}
		// each is overwritten and extended in place: none shows in another
		for k := range kept {
			kept[k] = append(kept[k], uint32(k))
			for j := range kept[k] {
				kept[k][j] = uint32(k)
			}
		}
		for k := 0; msg == "" && k < len(kept); k++ {
			for _, s := range kept[k] {
				if s != uint32(k) {
					msg = fmt.Sprintf("overwriting the OIDs of other calls changed the one kept from call %d", k+1)
				}
			}
		}
		if msg == "" {
			msg = x.check()
		}
		if msg != "" {
			return h.name + ": " + brief(msg)
		}
		c.W.State(mc.NewHash().Str(h.name).Sum())
		return ""
	})
}
