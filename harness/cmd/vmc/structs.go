//go:build verifx

package main

import (
	"fmt"
	"strconv"
	"strings"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/verifx"

	"verif/mc"
	"verif/ref"
)

func init() { checks["C29"] = checkC29 }

// refLinesDiff: every line of both texts, in order.
func refLinesDiff(a, b string) string {
	if a == b {
		return ""
	}
	x, y := strings.Split(a, "\n"), strings.Split(b, "\n")
	line := func(l []string, i int) string {
		if i < len(l) {
			return l[i]
		}
		return ""
	}
	var out []string
	for i := 0; i < max(len(x), len(y)); i++ {
		p, q := line(x, i), line(y, i)
		if p == q {
			out = append(out, " "+p)
		} else {
			out = append(out, "┌"+p, "└"+q)
		}
	}
	return strings.Join(out, "\n")
}

func diffOf(c *mc.Ctx, a, b any, ta, tb string) string {
	c.W.Step(1)
	got, want := verifx.StructsDiff(a, b), refLinesDiff(ta, tb)
	if (got == "") != (ta == tb) {
		return fmt.Sprintf("the diff of %s and %s is %q", clip(ta), clip(tb), clip(got))
	}
	if trimLines(strings.TrimRight(got, "\n")) != trimLines(strings.TrimRight(want, "\n")) {
		return fmt.Sprintf("the diff of %q and %q is\n%s\nwant\n%s", clip(ta), clip(tb), clip(got), clip(want))
	}
	return ""
}

type text struct{ Text string }

type inner struct {
	N    int8
	Flag bool
}

type outer struct {
	Int   int64
	Uint  uint16
	Bool  bool
	Str   string
	Inner inner
	Ptr   *inner
	Any   interface{}
	Oid   []uint32
	List  []inner
	Strs  []string
	Fl    agentx.Flags
	Rng   []agentx.SearchRange
}

func refOuter(o outer, depth int) string {
	var sb strings.Builder
	ind := func(d int) string { return strings.Repeat("    ", min(d, 8)) }
	line := func(d int, name, val string) { sb.WriteString("\n" + ind(d) + name + ": " + val) }
	in := func(d int, x inner) string {
		return "\n" + ind(d) + "N: " + strconv.Itoa(int(x.N)) + "\n" + ind(d) + "Flag: " + strconv.FormatBool(x.Flag)
	}
	line(depth, "Int", strconv.FormatInt(o.Int, 10))
	line(depth, "Uint", strconv.Itoa(int(o.Uint)))
	line(depth, "Bool", strconv.FormatBool(o.Bool))
	line(depth, "Str", o.Str)
	line(depth, "Inner", in(depth+1, o.Inner))
	if o.Ptr == nil {
		line(depth, "Ptr", "<nil>")
	} else {
		line(depth, "Ptr", in(depth+1, *o.Ptr))
	}
	switch x := o.Any.(type) {
	case nil:
		line(depth, "Any", "<nil>")
	case inner:
		line(depth, "Any", in(depth+1, x))
	case string:
		line(depth, "Any", x)
	case agentx.Flags:
		line(depth, "Any", x.String())
	}
	if len(o.Oid) == 0 {
		line(depth, "Oid", "<empty>")
	} else {
		line(depth, "Oid", ostr(o.Oid))
	}
	line(depth, "List", "")
	if len(o.List) == 0 {
		sb.WriteString("<empty>")
	}
	for _, x := range o.List {
		sb.WriteString("\n" + ind(depth+1) + in(depth+2, x))
	}
	line(depth, "Strs", "")
	if len(o.Strs) == 0 {
		sb.WriteString("<empty>")
	}
	for _, x := range o.Strs {
		sb.WriteString("\n" + ind(depth+1) + x)
	}
	line(depth, "Fl", o.Fl.String())
	line(depth, "Rng", "")
	if len(o.Rng) == 0 {
		sb.WriteString("<empty>")
	}
	for _, x := range o.Rng {
		sb.WriteString("\n" + ind(depth+1) + x.String())
	}
	return sb.String()[1:]
}

func genOuter(c *mc.Ctx) outer {
	o := outer{Str: "s", Oid: []uint32{1, 3}}
	o.Int = []int64{0, -1, 1 << 62, -1 << 63, 10}[c.Dev(5)]
	o.Uint = []uint16{0, 1, 65535, 10}[c.Dev(4)]
	o.Bool = c.Dev(2) == 1
	o.Str = []string{"s", "", "two\nlines", "t", " "}[c.Dev(5)]
	o.Inner.N = []int8{0, -128, 127}[c.Dev(3)]
	o.Inner.Flag = c.Dev(2) == 1
	o.Ptr = []*inner{nil, {}, {N: 5, Flag: true}}[c.Dev(3)]
	o.Any = []any{nil, inner{N: 3}, "text", agentx.Flags(3)}[c.Dev(4)]
	o.Oid = [][]uint32{{1, 3}, nil, {}, {4294967295}, {1, 3, 6, 1, 4, 1, 5, 6, 7}}[c.Dev(5)]
	o.List = [][]inner{nil, {}, {{N: 1}}, {{N: 1}, {N: 2, Flag: true}}}[c.Dev(4)]
	o.Strs = [][]string{nil, {"a"}, {"", "b"}, {"x", "y", "z"}}[c.Dev(4)]
	o.Fl = []agentx.Flags{0, 1, 255}[c.Dev(3)]
	o.Rng = [][]agentx.SearchRange{nil, {{}}, {{StartOid: []uint32{1}}, {EndOid: []uint32{2, 3}, StartIncluded: 1}}}[c.Dev(3)]
	return o
}

func checkC29(r *mc.Runner) {
	r.Assumptions = []string{"blanks and line breaks at the end are not part of the property", "package internal is reached through a package that go build -overlay adds"}
	// all texts of up to 4 lines over an alphabet of lines
	lines := []string{"", "a", "b", " a", "a ", "┌a", "long line"}
	var texts []string
	last := []string{}
	for _, l := range lines {
		last = append(last, l)
	}
	texts = append(texts, last...)
	for k := 1; k < bound(r, 4, 5); k++ {
		var next []string
		for _, t := range last {
			for _, l := range lines[:min(len(lines), 7-k)] {
				next = append(next, t+"\n"+l)
			}
		}
		texts = append(texts, next...)
		last = next
	}
	if !r.Thorough() {
		texts = texts[:min(len(texts), 1300)]
	} else {
		texts = texts[:min(len(texts), 6000)]
	}
	r.Sample(fmt.Sprintf("%d texts, e.g. %q", len(texts), texts[len(texts)/2]))
	// the text that is rendered: line breaks around a whole rendering are dropped
	show := func(s string) string { return strings.Trim("Text: "+s, "\n") }
	r.Explore("pairs of texts", len(texts), 0, func(sh int, c *mc.Ctx) string {
		a := texts[sh]
		for _, b := range texts {
			if m := diffOf(c, text{a}, text{b}, show(a), show(b)); m != "" {
				return m
			}
		}
		c.W.State(mc.NewHash().Str(a).Sum())
		return ""
	})
	r.Explore("structures", 9, bound(r, 3, 4), func(depth int, c *mc.Ctx) string {
		o := genOuter(c)
		c.W.Step(1)
		got, want := verifx.StructString(o, depth), strings.Trim(refOuter(o, depth), "\n")
		if trimLines(got) != trimLines(want) {
			return fmt.Sprintf("%+v at depth %d is rendered\n%s\nwant\n%s", o, depth, got, want)
		}
		c.W.State(mc.NewHash().Str(want).Sum())
		return ""
	})
	r.Explore("pairs of structures", 1, bound(r, 4, 5), func(_ int, c *mc.Ctx) string {
		a, b := genOuter(c), genOuter(c)
		return diffOf(c, a, b, verifx.StructString(a, 0), verifx.StructString(b, 0))
	})
	var lens []int
	for k := 0; k <= 300; k++ {
		lens = append(lens, k)
	}
	for k := 9; k <= 13; k++ {
		lens = append(lens, 1<<k-1, 1<<k, 1<<k+1)
	}
	r.Explore("long lists and texts", len(lens), 0, func(sh int, c *mc.Ctx) string {
		n := lens[sh]
		mk := func(change int) (o outer) {
			for i := 0; i < n; i++ {
				x := inner{N: int8(i)}
				s := "line " + strconv.Itoa(i)
				if i == change {
					x.Flag = true
					s += "!"
				}
				o.List = append(o.List, x)
				o.Strs = append(o.Strs, s)
				o.Str += s + "\n"
				o.Rng = append(o.Rng, agentx.SearchRange{StartOid: []uint32{uint32(len(s))}})
			}
			return
		}
		a := mk(-1)
		ta := verifx.StructString(a, 0)
		if want := strings.Trim(refOuter(a, 0), "\n"); trimLines(ta) != trimLines(want) {
			return fmt.Sprintf("lists of %d elements are rendered\n%s\nwant\n%s", n, clip(ta), clip(want))
		}
		for _, at := range []int{-1, 0, n / 2, n - 2, n - 1} {
			b := mk(at)
			if m := diffOf(c, a, b, ta, verifx.StructString(b, 0)); m != "" {
				return fmt.Sprintf("lists of %d elements, element %d changed: %s", n, at, m)
			}
			if n < 300 {
				if m := diffOf(c, b, outer{Strs: b.Strs}, verifx.StructString(b, 0), verifx.StructString(outer{Strs: b.Strs}, 0)); m != "" {
					return m
				}
			}
		}
		return ""
	})
	r.Explore("pairs of PDUs", len(tagFlags1), 1, func(sh int, c *mc.Ctx) string {
		c.NoBig = true
		a := gen{c: c, lite: true}.pdu(tagFlags1[sh].tag, tagFlags1[sh].flags)
		b := gen{c: c, lite: true}.pdu(tagFlags1[sh].tag, tagFlags1[sh].flags)
		ta, tb := a.String(0), b.String(0)
		if m := diffOf(c, a, b, ta, tb); m != "" {
			return m
		}
		if strings.ContainsAny(inputStrings(a)+inputStrings(b), "\n\r") {
			return ""
		}
		na, nb := ref.Copy(a), ref.Copy(b)
		if ta == tb && ref.Diff(na, nb) != "" && ref.Representable(na) && ref.Representable(nb) {
			if d := ref.Diff(ref.Normal(na, 20), ref.Normal(nb, 20)); d != "" && ref.Types[byte(a.Tag)].Varbinds == false {
				return fmt.Sprintf("different PDUs have no diff: %s; %s %s", d, ref.Show(a), ref.Show(b))
			}
		}
		return ""
	})
	r.Explore("not structures", 1, 0, func(_ int, c *mc.Ctx) string {
		for _, x := range []any{nil, 5, "text", []int{1}, map[string]int{}, &inner{}, (*inner)(nil)} {
			c.W.Step(1)
			verifx.StructString(x, 0) // must not panic
		}
		return ""
	})
	// two structures that share memory
	r.Explore1("parts of the same memory", 1, 0, func(sh int, c *mc.Ctx) string {
		ids := []uint32{1, 3, 1, 3, 1, 3}
		list := []inner{{N: 1}, {N: 1}, {N: 2, Flag: true}, {N: 1}}
		strs := []string{"a", "a", "b", "a"}
		rngs := []agentx.SearchRange{{StartOid: ids[:2]}, {StartOid: ids[:2]}, {EndOid: ids[:3]}}
		in := &inner{N: 4}
		var os []outer
		for i := 0; i < 3; i++ {
			for n := 0; n < 3; n++ {
				o := outer{Oid: ids[i:][:n], Ptr: in}
				os = append(os, o, outer{Str: "aab"[:n], List: list[i%2:][:n], Ptr: in}, outer{Strs: strs[i%2:][:n], Str: "aab"[i:3], Any: *in})
				if n+i%2 < 3 {
					os = append(os, outer{Rng: rngs[i%2:][:n], Oid: ids[:i]})
				}
			}
		}
		for _, a := range os {
			for _, b := range os {
				if m := diffOf(c, a, b, strings.Trim(refOuter(a, 0), "\n"), strings.Trim(refOuter(b, 0), "\n")); m != "" {
					return m
				}
			}
		}
		return ""
	})
}
