package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/oid"

	"verif/mc"
	"verif/ref"
)

func init() {
	checks["C11"] = checkC11
	checks["C12"] = checkC12
	checks["C13"] = checkC13
	checks["C22"] = checkC22
}

// universe lists every OID over the alphabet up to the given length.
func universe(alpha []uint32, depth int) [][]uint32 {
	out := [][]uint32{{}}
	last := out
	for d := 0; d < depth; d++ {
		var next [][]uint32
		for _, o := range last {
			for _, a := range alpha {
				next = append(next, append(append(make([]uint32, 0, len(o)+1), o...), a))
			}
		}
		out = append(out, next...)
		last = next
	}
	return out
}

func refCompare(a, b []uint32) int {
	for i := 0; ; i++ {
		switch {
		case i == len(a) && i == len(b):
			return 0
		case i == len(a):
			return -1
		case i == len(b):
			return 1
		case a[i] < b[i]:
			return -1
		case a[i] > b[i]:
			return 1
		}
	}
}

func ostr(o []uint32) string {
	s := make([]string, len(o))
	for i, x := range o {
		s[i] = strconv.FormatUint(uint64(x), 10)
	}
	return strings.Join(s, ".")
}

func cmpCase(a, b []uint32, w *mc.Worker) string {
	w.Step(9)
	want := refCompare(a, b)
	got := oid.Compare(a, b)
	if got != want {
		return fmt.Sprintf("Compare(%s, %s) = %d, want %d", ostr(a), ostr(b), got, want)
	}
	if r := oid.Compare(b, a); r != -want {
		return fmt.Sprintf("Compare(%s, %s) = %d, but %d the other way round", ostr(b), ostr(a), r, want)
	}
	if oid.Lt(a, b) != (want < 0) || oid.Le(a, b) != (want <= 0) || oid.Eq(a, b) != (want == 0) ||
		oid.Ne(a, b) != (want != 0) || oid.Ge(a, b) != (want >= 0) || oid.Gt(a, b) != (want > 0) {
		return fmt.Sprintf("predicates of (%s, %s) disagree with the order %d: lt=%v le=%v eq=%v ne=%v ge=%v gt=%v", ostr(a), ostr(b), want,
			oid.Lt(a, b), oid.Le(a, b), oid.Eq(a, b), oid.Ne(a, b), oid.Ge(a, b), oid.Gt(a, b))
	}
	pre := len(b) <= len(a)
	for i := 0; pre && i < len(b); i++ {
		pre = a[i] == b[i]
	}
	if got := oid.HasPrefix(a, b...); got != pre {
		return fmt.Sprintf("HasPrefix(%s, %s) = %v", ostr(a), ostr(b), got)
	}
	return ""
}

func checkC11(r *mc.Runner) {
	r.Assumptions = []string{"beyond the enumerated alphabets, sub-identifiers are compared like the boundary values explored"}
	alpha := []uint32{0, 1, 2, 256, 0x7fffffff, 0x80000000, 0xffffffff}
	u := universe(alpha, bound(r, 4, 5))
	r.Sample(map[string]any{"universe": fmt.Sprint(len(u), " OIDs over ", alpha)})
	r.Explore("all pairs", len(u), 0, func(sh int, c *mc.Ctx) string {
		a := append([]uint32(nil), u[sh]...)
		for _, b := range u {
			if m := cmpCase(a, b, c.W); m != "" {
				return m
			}
		}
		c.W.State(mc.NewHash().Str(ostr(a)).Sum())
		if refCompare(a, u[sh]) != 0 {
			return "an argument was modified"
		}
		for k := 0; k <= len(a); k++ { // shared memory
			if m := cmpCase(a, a[:k], c.W); m != "" {
				return m
			}
			if m := cmpCase(a[k:], a, c.W); m != "" {
				return m
			}
		}
		return ""
	})
	vals := append(append([]uint32{0}, u32s...), u32b...)
	r.Explore("sub-identifier pairs", len(vals), 0, func(sh int, c *mc.Ctx) string {
		for _, y := range vals {
			x := vals[sh]
			if m := cmpCase([]uint32{x}, []uint32{y}, c.W); m != "" {
				return m
			}
			if m := cmpCase([]uint32{1, 3, x, 4}, []uint32{1, 3, y}, c.W); m != "" {
				return m
			}
			if m := cmpCase([]uint32{1, x, 9}, []uint32{1, y, 8, 1}, c.W); m != "" {
				return m
			}
		}
		return ""
	})
	// all pairs of lengths, equal up to the first difference at every position
	n := bound(r, 140, 300)
	r.Explore("long OIDs", n+1, 0, func(la int, c *mc.Ctx) string {
		a, b := longOid(nil, la), longOid(nil, n)
		for lb := 0; lb <= n; lb++ {
			if m := cmpCase(a, b[:lb], c.W); m != "" {
				return m
			}
			for p := 0; p < lb && p < la; p++ {
				old := b[p]
				// the smallest differences, then a large one followed by the
				// opposite difference
				for _, v := range [...]uint32{old ^ 1, old ^ 2, old + 1, old - 1} {
					b[p] = v
					if m := cmpCase(a, b[:lb], c.W); m != "" {
						return m
					}
				}
				b[p] = old ^ 0x80000000
				if m := cmpCase(a, b[:lb], c.W); m != "" {
					return m
				}
				if q := p + 1; q < lb {
					oldq := b[q]
					b[q] = oldq ^ 0x80000000
					if m := cmpCase(a, b[:lb], c.W); m != "" {
						return m
					}
					b[q] = oldq
				}
				b[p] = old
			}
		}
		return ""
	})
	// OIDs of one repeated value: all pairs of lengths, with the last or the
	// first sub-identifier of the shorter one changed
	same := []uint32{0, 1, 2, 127, 128, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff}
	r.Explore("repeated values", len(same)*(n+1), 0, func(sh int, c *mc.Ctx) string {
		v, la := same[sh%len(same)], sh/len(same)
		a, b := make([]uint32, la), make([]uint32, n)
		for i := range a {
			a[i] = v
		}
		for i := range b {
			b[i] = v
		}
		for lb := 0; lb <= n; lb++ {
			if m := cmpCase(a, b[:lb], c.W); m != "" {
				return m
			}
			for _, p := range []int{0, lb - 1, lb / 2} {
				if p < 0 || p >= lb {
					continue
				}
				for _, z := range same {
					b[p] = z
					if m := cmpCase(a, b[:lb], c.W); m != "" {
						return m
					}
				}
				b[p] = v
			}
		}
		return ""
	})
	small := universe([]uint32{0, 1, 0x80000000, 0xffffffff}, bound(r, 2, 3))
	r.Explore("order axioms on triples", len(small), 0, func(sh int, c *mc.Ctx) string {
		x := small[sh]
		for _, y := range small {
			xy := oid.Compare(x, y)
			for _, z := range small {
				c.W.Step(2)
				yz, xz := oid.Compare(y, z), oid.Compare(x, z)
				if xy <= 0 && yz <= 0 && (xz > 0 || (xy < 0 || yz < 0) && xz == 0) {
					return fmt.Sprintf("not transitive: %s, %s, %s: %d %d %d", ostr(x), ostr(y), ostr(z), xy, yz, xz)
				}
			}
		}
		return ""
	})
}

// refParse is the grammar of C12: [.] [ num { . num } ].
func refParse(s string) (o []uint32, ok bool) {
	if s != "" && s[0] == '.' {
		s = s[1:]
	}
	if s == "" {
		return nil, true
	}
	var v uint64
	digits := 0
	for i := 0; i <= len(s); i++ {
		if i == len(s) || s[i] == '.' {
			if digits == 0 {
				return nil, false
			}
			o = append(o, uint32(v))
			v, digits = 0, 0
			continue
		}
		if s[i] < '0' || s[i] > '9' {
			return nil, false
		}
		v = v*10 + uint64(s[i]-'0')
		if v > 0xffffffff {
			return nil, false
		}
		digits++
	}
	return o, len(o) <= 128
}

func tryParse(s string) (o []uint32, ok bool) {
	defer func() {
		if recover() != nil {
			o, ok = nil, false
		}
	}()
	return oid.Parse(s), true
}

func parseCase(s string, w *mc.Worker) string {
	w.Step(1)
	want, wok := refParse(s)
	got, ok := tryParse(s)
	show := func(o []uint32, ok bool) string {
		if !ok {
			return "panic"
		}
		return "[" + ostr(o) + "]"
	}
	if ok != wok || ok && !ref.OidEq(got, want) {
		if len(s) > 300 {
			s = s[:300] + "..."
		}
		return fmt.Sprintf("Parse(%q): got %s, want %s", s, show(got, ok), show(want, wok))
	}
	if ok {
		w.Outcome("accepted")
		if len(got) > 0 { // the result is the caller's: changing it must not change what the text means
			for i := range got {
				got[i] ^= 0x55555555
			}
			if again, ok := tryParse(s); !ok || !ref.OidEq(again, want) {
				return fmt.Sprintf("Parse(%q) gives %s after its first result was modified", s, show(again, ok))
			}
			w.Step(1)
		}
	} else {
		w.Outcome("refused")
	}
	return ""
}

func textCase(o []uint32, w *mc.Worker) string {
	w.Step(4)
	keep := append([]uint32(nil), o...)
	want := ostr(o)
	if got := oid.String(o); got != want {
		return fmt.Sprintf("String(%v) = %q, want %q", o, got, want)
	}
	var sb strings.Builder
	sb.WriteString("x:")
	oid.Fprint(&sb, o)
	oid.Fprint(&sb, o)
	if sb.String() != "x:"+want+want {
		return fmt.Sprintf("Fprint of %v appended %q, want %q twice", o, sb.String(), want)
	}
	if !ref.OidEq(o, keep) {
		return "formatting modified the OID " + ostr(keep)
	}
	for _, s := range []string{want, "." + want} {
		got, ok := tryParse(s)
		if ok != (len(o) <= 128) || ok && !ref.OidEq(got, o) {
			return fmt.Sprintf("Parse(%q) = %v, %v does not give %v back", s, got, ok, o)
		}
	}
	return ""
}

func checkC12(r *mc.Runner) {
	r.Assumptions = []string{"leading zeros are part of a decimal number (as in the code)", "a refusal is any panic"}
	alpha := ".019-+ax _\x00"
	depth := bound(r, 6, 7)
	r.Explore("all short strings", len(alpha)*len(alpha)+1, 0, func(sh int, c *mc.Ctx) string {
		if sh == len(alpha)*len(alpha) {
			if m := parseCase("", c.W); m != "" {
				return m
			}
			for i := range alpha {
				if m := parseCase(alpha[i:i+1], c.W); m != "" {
					return m
				}
			}
			return ""
		}
		b := []byte{alpha[sh/len(alpha)], alpha[sh%len(alpha)]}
		for i, n := 0, c.Pick(depth-1); i < n; i++ {
			b = append(b, alpha[c.Pick(len(alpha))])
		}
		c.W.State(mc.NewHash().Bytes(b).Sum())
		return parseCase(string(b), c.W)
	})
	d2 := bound(r, 12, 15)
	r.Explore("all strings of dots and digits", 3*3*3, 0, func(sh int, c *mc.Ctx) string {
		a := ".04"
		b := []byte{a[sh/9], a[sh/3%3], a[sh%3]}
		for i, n := 0, c.Pick(d2-2); i < n; i++ {
			b = append(b, a[c.Pick(3)])
		}
		return parseCase(string(b), c.W)
	})
	bases := []string{"1.2.3", ".1.2.3", "4294967295", "0", "1.3.6.1.4.1.9999.1", "10.20", "", "."}
	r.Explore("every byte at every position", 256, 0, func(sh int, c *mc.Ctx) string {
		for _, s := range bases {
			for p := 0; p <= len(s); p++ {
				if m := parseCase(s[:p]+string([]byte{byte(sh)})+s[p:], c.W); m != "" {
					return m
				}
				if p < len(s) {
					if m := parseCase(s[:p]+string([]byte{byte(sh)})+s[p+1:], c.W); m != "" {
						return m
					}
				}
			}
		}
		return ""
	})
	nums := []string{"4294967294", "4294967295", "4294967296", "4294967297", "4294967300", "5000000000", "8589934591", "8589934592", "9999999999", "10000000000",
		"42949672950", "18446744073709551615", "18446744073709551616", "18446744073709551617", "18446744077999999999", "36893488147419103233",
		"340282366920938463463374607431768211457", "00", "000", "007", "04294967295", "04294967296", "00000000000000000000000000000000001",
		"0x1", "0b1", "0o7", "1e3", "1_000", "+1", "-1", "-0", "1.5e3", "٣", "１", "²", "1\n", "\t1", "1 ", "∞", "", "0x", "١.٢"}
	var names []string
	for k := range oid.Name {
		names = append(names, k)
	}
	sort.Strings(names)
	nums = append(nums, names...)
	nums = append(nums, "iso", "org", "dod", "internet", "mgmt", "mib-2", "private", "enterprises", "ccitt", "zeroDotZero", "nil", "null", "true", "NaN", "Inf")
	for k := 0; k < 64; k++ {
		nums = append(nums, strconv.FormatUint(1<<k, 10), strconv.FormatUint(1<<k-1, 10), strconv.FormatUint(1<<k+1, 10))
	}
	r.Explore("numbers", len(nums), 0, func(sh int, c *mc.Ctx) string {
		n := nums[sh]
		for _, s := range []string{n, "." + n, n + ".1", "1." + n, "1." + n + ".2", "1." + n + ".", "." + n + "." + n, ".." + n, n + "." + n + "." + n} {
			if m := parseCase(s, c.W); m != "" {
				return m
			}
		}
		return ""
	})
	r.Explore("number of sub-identifiers", 700, 0, func(sh int, c *mc.Ctx) string {
		for _, e := range []string{"1", "0", "4294967295", "77"} {
			s := strings.TrimSuffix(strings.Repeat(e+".", sh), ".")
			for _, t := range []string{s, "." + s, s + ".", "." + s + ".", ".." + s} {
				if m := parseCase(t, c.W); m != "" {
					return m
				}
			}
			for _, p := range []int{0, 1, 5, 126, 127, 128, 129} { // an empty or bad element among many
				if p < sh && p*(len(e)+1) <= len(s) {
					for _, x := range []string{".", "x.", "-1.", "4294967296."} {
						if m := parseCase(s[:p*(len(e)+1)]+x+s[p*(len(e)+1):], c.W); m != "" {
							return m
						}
					}
				}
			}
		}
		return ""
	})
	u := universe([]uint32{0, 1, 9, 10, 0x7fffffff, 0x80000000, 0xffffffff}, bound(r, 4, 6))
	for n := 0; n <= 300; n++ {
		u = append(u, longOid(nil, n))
		m := make([]uint32, n)
		for i := range m {
			m[i] = 0xffffffff
		}
		u = append(u, m)
	}
	r.Explore("text of all OIDs", 64, 0, func(sh int, c *mc.Ctx) string {
		for i := sh; i < len(u); i += 64 {
			c.W.State(mc.NewHash().Str(ostr(u[i])).U(1).Sum())
			if m := textCase(u[i], c.W); m != "" {
				return m
			}
		}
		return ""
	})
	r.Explore("text of all sub-identifier values", 1024, 0, func(sh int, c *mc.Ctx) string {
		for _, v := range u32b {
			if m := textCase([]uint32{uint32(sh) * 4194301, v, uint32(sh)}, c.W); m != "" {
				return m
			}
		}
		return ""
	})
	r.Sample("every string up to length " + fmt.Sprint(depth) + " over " + strconv.Quote(alpha))
}

// C13: objects are OIDs with guarded spare capacity; every step may clone,
// concatenate, overwrite or append, and all objects are compared with their
// model values after it.
type obj struct {
	real  []uint32
	model []uint32
	spare int // guard words behind real (inputs only)
}

func checkObjs(os []obj) string {
	for i, o := range os {
		if !ref.OidEq(o.real, o.model) {
			return fmt.Sprintf("object %d is %s, want %s", i, ostr(o.real), ostr(o.model))
		}
		for _, x := range o.real[:len(o.real)+o.spare][len(o.real):] {
			if x != sentinel {
				return fmt.Sprintf("memory behind object %d (%s) was overwritten", i, ostr(o.model))
			}
		}
	}
	return ""
}

func checkC13(r *mc.Runner) {
	r.Assumptions = []string{"at most 5 steps and lengths up to 3 in histories; every pair of lengths up to 140 for single calls"}
	mk := func(n, spare int, from uint32) obj {
		a := make([]uint32, n+spare)
		for i := range a {
			a[i] = sentinel
		}
		m := make([]uint32, n)
		for i := range m {
			m[i] = from + uint32(i)
			a[i] = m[i]
		}
		return obj{a[:n], m, spare}
	}
	steps := bound(r, 3, 4)
	r.Explore("histories", 4*3, 0, func(sh int, c *mc.Ctx) string {
		os := []obj{mk(sh/3, []int{0, 1, 8}[sh%3], 10), mk(c.Pick(3), []int{0, 4}[c.Pick(2)], 20)}
		var log []string
		h := mc.NewHash().U(uint64(sh)).U(uint64(len(os[1].real)*8 + os[1].spare))
		for s := 0; s < steps; s++ {
			k := c.Pick(len(os))
			op := c.Pick(6)
			h = h.U(uint64(k*8 + op))
			c.W.Step(1)
			switch op {
			case 0:
				x := oid.Clone(os[k].real)
				os = append(os, obj{x, append([]uint32(nil), os[k].model...), 0})
				log = append(log, fmt.Sprintf("Clone(%d)", k))
			case 1, 2: // Cat with another object, or with a part of itself
				j := c.Pick(len(os))
				h = h.U(uint64(j))
				var args, margs []uint32
				if op == 1 {
					args, margs = os[j].real, os[j].model
				} else if n := len(os[k].real); n > 0 {
					args, margs = os[k].real[:n-1], os[k].model[:n-1]
				}
				x := oid.Cat(os[k].real, args...)
				os = append(os, obj{x, append(append([]uint32(nil), os[k].model...), margs...), 0})
				log = append(log, fmt.Sprintf("Cat(%d,%d;%d)", k, j, op))
			case 3: // overwrite
				for i := range os[k].real {
					os[k].real[i] += 1000 * uint32(s+1)
					os[k].model[i] += 1000 * uint32(s+1)
				}
				log = append(log, fmt.Sprintf("overwrite(%d)", k))
			case 4: // extend
				if os[k].spare == 0 {
					os[k].real = append(os[k].real, 7, 8)
					os[k].model = append(append([]uint32(nil), os[k].model...), 7, 8)
				}
				log = append(log, fmt.Sprintf("append(%d)", k))
			case 5: // Cat with literal sub-identifiers, including a prefix of the object
				n := len(os[k].real) / 2
				x := oid.Cat(os[k].real[:n], 5, 6)
				os = append(os, obj{x, append(append([]uint32(nil), os[k].model[:n]...), 5, 6), 0})
				log = append(log, fmt.Sprintf("Cat(%d[:%d],5,6)", k, n))
			}
			if m := checkObjs(os); m != "" {
				return fmt.Sprintf("after %v: %s", log, m)
			}
		}
		c.W.State(h.Sum())
		// finally extend every result through its spare capacity
		for k := 2; k < len(os); k++ {
			os[k].real = append(os[k].real, uint32(k))
			os[k].model = append(append([]uint32(nil), os[k].model...), uint32(k))
			full := os[k].real[:cap(os[k].real)]
			for i := len(os[k].real); i < len(full); i++ {
				full[i] = 0xBAD0BAD0
			}
			if m := checkObjs(os); m != "" {
				return fmt.Sprintf("after %v and append(%d): %s", log, k, m)
			}
		}
		return ""
	})
	n := bound(r, 140, 300)
	var lens []int
	for l := 0; l <= n; l++ {
		lens = append(lens, l)
	}
	for l := n + 1; l <= 300; l++ {
		lens = append(lens, l)
	}
	for k := 9; k <= 16; k++ {
		lens = append(lens, 1<<k-1, 1<<k, 1<<k+1)
	}
	lens = append(lens, 500, 1000, 10000, 1<<20)
	r.Explore("all lengths", len(lens), 0, func(sh int, c *mc.Ctx) string {
		la := lens[sh]
		lbs := lens[:n+1]
		if la > n {
			lbs = []int{0, 1, 2, 100, 1000}
		}
		for _, spare := range []int{0, 1, 200} {
			a := mk(la, spare, 100)
			cl := oid.Clone(a.real)
			if !ref.OidEq(cl, a.model) {
				return fmt.Sprintf("Clone(%s) = %s", ostr(a.model), ostr(cl))
			}
			for _, lb := range lbs {
				b := mk(lb, spare, 0xfffffff0)
				c.W.Step(1)
				x := oid.Cat(a.real, b.real...)
				y := oid.Cat(a.real, b.real...)
				want := append(append([]uint32(nil), a.model...), b.model...)
				for i := range y {
					y[i] = 0x11111111
				}
				os := []obj{a, b, {x, want, 0}, {cl, a.model, 0}}
				if m := checkObjs(os); m != "" {
					return fmt.Sprintf("Cat of lengths %d and %d: %s", la, lb, m)
				}
			}
			for i := range cl {
				cl[i]++
			}
			if m := checkObjs([]obj{a}); m != "" {
				return "changing a clone: " + m
			}
		}
		return ""
	})
	r.Sample("Clone/Cat/overwrite/append histories of length " + fmt.Sprint(steps))
}

// RFC 1155, 1902/2578, 3418 and 2863.
var registered = map[string]string{
	"internet": "1.3.6.1", "directory": "1.3.6.1.1", "mgmt": "1.3.6.1.2", "experimental": "1.3.6.1.3", "private": "1.3.6.1.4",
	"security": "1.3.6.1.5", "snmpV2": "1.3.6.1.6", "mib2": "1.3.6.1.2.1", "mib-2": "1.3.6.1.2.1", "enterprises": "1.3.6.1.4.1",
	"system": "1.3.6.1.2.1.1", "sysDescr": "1.3.6.1.2.1.1.1", "sysOid": "1.3.6.1.2.1.1.2", "sysObjectID": "1.3.6.1.2.1.1.2", "sysUpTime": "1.3.6.1.2.1.1.3",
	"sysContact": "1.3.6.1.2.1.1.4", "sysName": "1.3.6.1.2.1.1.5", "sysLocation": "1.3.6.1.2.1.1.6", "sysServices": "1.3.6.1.2.1.1.7",
	"sysORLastChange": "1.3.6.1.2.1.1.8", "sysORTable": "1.3.6.1.2.1.1.9", "sysOREntry": "1.3.6.1.2.1.1.9.1", "sysORIndex": "1.3.6.1.2.1.1.9.1.1",
	"sysORID": "1.3.6.1.2.1.1.9.1.2", "sysORDescr": "1.3.6.1.2.1.1.9.1.3", "sysORUpTime": "1.3.6.1.2.1.1.9.1.4",
	"interfaces": "1.3.6.1.2.1.2", "ifNumber": "1.3.6.1.2.1.2.1", "ifTable": "1.3.6.1.2.1.2.2", "ifEntry": "1.3.6.1.2.1.2.2.1",
	"ifIndex": "1.3.6.1.2.1.2.2.1.1", "ifDescr": "1.3.6.1.2.1.2.2.1.2", "ifType": "1.3.6.1.2.1.2.2.1.3", "ifMtu": "1.3.6.1.2.1.2.2.1.4",
	"ifSpeed": "1.3.6.1.2.1.2.2.1.5", "ifPhysAddress": "1.3.6.1.2.1.2.2.1.6", "ifAdminStatus": "1.3.6.1.2.1.2.2.1.7",
	"ifOperStatus": "1.3.6.1.2.1.2.2.1.8", "ifLastChange": "1.3.6.1.2.1.2.2.1.9", "ifInOctets": "1.3.6.1.2.1.2.2.1.10",
	"ifInUcastPkts": "1.3.6.1.2.1.2.2.1.11", "ifInNUcastPkts": "1.3.6.1.2.1.2.2.1.12", "ifInDiscards": "1.3.6.1.2.1.2.2.1.13",
	"ifInErrors": "1.3.6.1.2.1.2.2.1.14", "ifInUnknownProtos": "1.3.6.1.2.1.2.2.1.15", "ifOutOctets": "1.3.6.1.2.1.2.2.1.16",
	"ifOutUcastPkts": "1.3.6.1.2.1.2.2.1.17", "ifOutNUcastPkts": "1.3.6.1.2.1.2.2.1.18", "ifOutDiscards": "1.3.6.1.2.1.2.2.1.19",
	"ifOutErrors": "1.3.6.1.2.1.2.2.1.20", "ifOutQLen": "1.3.6.1.2.1.2.2.1.21", "ifSpecific": "1.3.6.1.2.1.2.2.1.22",
}

// the names the library defines today
var predefined = strings.Fields(`internet directory mgmt experimental private security snmpV2 mib2 enterprises system sysDescr sysOid sysUpTime
 sysContact sysName sysLocation sysServices sysORLastChange sysORTable sysOREntry sysORIndex sysORID sysORDescr sysORUpTime
 interfaces ifNumber ifTable ifEntry ifIndex ifDescr ifType ifMtu ifSpeed ifPhysAddress ifAdminStatus`)

func namesIntact(snap map[string]string) string {
	if len(oid.Name) != len(snap) {
		return fmt.Sprintf("the name table has %d entries, had %d", len(oid.Name), len(snap))
	}
	for n, o := range oid.Name {
		if w, ok := snap[n]; !ok || ostr(o) != w {
			return fmt.Sprintf("name %q maps to %s, was %s", n, ostr(o), snap[n])
		}
	}
	return ""
}

func checkC22(r *mc.Runner) {
	r.Assumptions = []string{"operations explored: codec (plain and debug), rendering, comparison, parsing, Clone/Cat, and tree operations, on table entries and sub-slices of them; callers who modify the table themselves are outside the property"}
	snap := map[string]string{}
	for n, o := range oid.Name {
		snap[n] = ostr(o)
	}
	r.Explore1("registered OIDs", len(predefined), 0, func(sh int, c *mc.Ctx) string {
		n := predefined[sh]
		o, ok := oid.Name[n]
		c.W.Step(1)
		c.W.State(mc.NewHash().Str(n).Sum())
		if !ok {
			return fmt.Sprintf("name %q is missing from the table", n)
		}
		if ostr(o) != registered[n] {
			return fmt.Sprintf("name %q maps to %s, registered: %s", n, ostr(o), registered[n])
		}
		return ""
	})
	r.Explore1("other names and sharing", 1, 0, func(sh int, c *mc.Ctx) string {
		byOid := map[string]string{}
		for n, o := range oid.Name {
			c.W.Step(1)
			if w, ok := registered[n]; ok && w != ostr(o) {
				return fmt.Sprintf("name %q maps to %s, registered: %s", n, ostr(o), w)
			}
			if m, dup := byOid[ostr(o)]; dup {
				return fmt.Sprintf("names %q and %q share the OID %s", n, m, ostr(o))
			}
			byOid[ostr(o)] = n
		}
		for n, o := range oid.Name { // memory, including what an append could reach
			full := o[:cap(o)]
			old := append([]uint32(nil), full...)
			for i := range full {
				full[i] ^= 0xA5A5A5A5
			}
			msg := ""
			for m, p := range oid.Name {
				c.W.Step(1)
				if m != n && ostr(p) != snap[m] {
					msg = fmt.Sprintf("names %q and %q share memory", n, m)
				}
			}
			copy(full, old)
			if msg != "" {
				return msg
			}
		}
		return ""
	})
	names := append([]string(nil), predefined...)
	ops := []struct {
		name string
		f    func(o, p []uint32)
	}{
		{"encode and decode", func(o, p []uint32) {
			for _, fl := range []agentx.Flags{0, 16} {
				for _, pdu := range []agentx.Pdu{
					{Tag: 1, Flags: fl, Params: agentx.OpenParams{Oid: o}},
					{Tag: 3, Flags: fl, Params: agentx.RegisterParams{Subtree: o, RangeSubid: 3, UpperBound: 9}},
					{Tag: 4, Flags: fl, Params: agentx.UnregisterParams{Subtree: o}},
					{Tag: 6, Flags: fl, Params: agentx.NoParams{}, Ranges: []agentx.SearchRange{{StartOid: o, EndOid: p, StartIncluded: 1}}},
					{Tag: 7, Flags: fl, Params: agentx.GetBulkParams{}, Ranges: []agentx.SearchRange{{StartOid: p, EndOid: o}}},
					{Tag: 16, Flags: fl, Params: agentx.AddAgentCapsParams{Oid: o}},
					{Tag: 17, Flags: fl, Params: agentx.RemoveAgentCapsParams{Oid: o}},
					{Tag: 18, Flags: fl, Params: agentx.ResponseParams{}, Varbinds: []asn.Varbind{vb(6, o, p), vb(2, p, int32(1))}},
				} {
					for _, dbg := range []bool{false, true} {
						var b []byte
						var ok bool
						if dbg {
							b, ok = agentx.EncodePduDbg(pdu, &discard{})
						} else {
							b, ok = agentx.EncodePdu(pdu)
						}
						if !ok || len(b) < 20 {
							continue
						}
						var q agentx.Pdu
						if dbg {
							q, _ = agentx.DecodePduHeaderDbg(b[:20], &discard{})
							agentx.DecodePduPayloadDbg(&q, b[20:], &discard{})
						} else {
							q, _ = agentx.DecodePduHeader(b[:20])
							agentx.DecodePduPayload(&q, b[20:])
						}
						_ = pdu.String(1)
						_ = q.String(0)
						eachSlice(&q, func(x []uint32) { // results are the caller's
							full := x[:cap(x)]
							for i := range full {
								full[i] = 0x12345678
							}
						}, func([]byte) {})
					}
				}
			}
		}},
		{"compare", func(o, p []uint32) {
			oid.Compare(o, p)
			oid.HasPrefix(o, p...)
			oid.Lt(o, p)
			oid.Ge(p, o)
		}},
		{"format and parse", func(o, p []uint32) {
			x := oid.Parse(oid.String(o))
			for i := range x {
				x[i] = 9
			}
			var sb strings.Builder
			oid.Fprint(&sb, p)
			_ = asn.Varbind{Oid: o, Tag: 6, Value: p}.String()
		}},
		{"clone and cat", func(o, p []uint32) {
			for _, x := range [][]uint32{oid.Clone(o), oid.Cat(o, p...), oid.Cat(o, 1, 2), oid.Cat(o), oid.Cat(o[:len(o)-1], 7), oid.Cat(nil, o...)} {
				x = append(x, 3)
				for i := range x {
					x[i] = 77
				}
			}
		}},
		{"tree", func(o, p []uint32) {
			t := oid.NewTree()
			t.AddNode(o)
			t.AddNode(p)
			if n := t.AddNode(o[:len(o)-1]); n != nil {
				n.Data = 1
			}
			t.GetNextNode(nil, p, true)
			t.GetNextNode(o, nil, false)
			t.ForRangeLeaves(func(x []uint32, n *oid.Node) {
				x = append(x, 5)
				for i := range x {
					x[i] = 4
				}
			})
			t.RemoveNode(o)
			t.GetNode(p)
			t.Clear()
		}},
	}
	r.Explore1("table unchanged by operations", len(names), 0, func(sh int, c *mc.Ctx) string {
		o := oid.Name[names[sh]]
		p := oid.Name[mc.PickOf(c, names)]
		k := c.Pick(len(ops))
		if o == nil || p == nil {
			return ""
		}
		ops[k].f(o, p)
		c.W.Step(1)
		if m := namesIntact(snap); m != "" {
			return fmt.Sprintf("after %s on %q: %s", ops[k].name, names[sh], m)
		}
		return ""
	})
	r.Sample(snap)
}
