package main

import (
	"fmt"

	"github.com/alexispb/mygosnmp/agentx"
	"github.com/alexispb/mygosnmp/asn"
	"github.com/alexispb/mygosnmp/oid"
	"github.com/alexispb/mygosnmp/pduerror"

	"verif/mc"
	"verif/ref"
)

// Histories in which every query is a step of its own, so that nothing but
// the chosen calls happens between a query, a change and the next query, on
// one tree or on two trees used in turn.

func init() {
	add := func(id string) {
		old := checks[id]
		checks[id] = func(r *mc.Runner) {
			old(r)
			sparse(r, id)
		}
	}
	add("C14")
	add("C15")
	add("C16")
	pairs := func(id string, mk func() (cs []pcall)) {
		old := checks[id]
		checks[id] = func(r *mc.Runner) {
			old(r)
			secondCalls(r, mk())
		}
	}
	pairs("C12", func() (cs []pcall) {
		for _, o := range append(universe([]uint32{0, 1, 9, 10, 0xffffffff}, 3), longOid(nil, 20), longOid(nil, 128), longOid(nil, 129)) {
			cs = append(cs, pcall{"String of " + brief(ostr(o)), func() string { return oid.String(o) }})
			for _, s := range []string{ostr(o), "." + ostr(o), ostr(o) + ".", ostr(o) + "x", ostr(o) + "0"} {
				cs = append(cs, pcall{fmt.Sprintf("Parse(%q)", brief(s)), func() (t string) {
					defer func() {
						if recover() != nil {
							t = "panic"
						}
					}()
					return fmt.Sprint(oid.Parse(s))
				}})
			}
		}
		return
	})
	pairs("C20", func() (cs []pcall) {
		str := func(what string, i int, f func() string) { cs = append(cs, pcall{fmt.Sprint(what, " ", i), f}) }
		for i := 0; i < 256; i++ {
			str("PDU type", i, agentx.PduTag(i).String)
			str("close reason", i, agentx.CloseReason(i).String)
			str("value tag", i, asn.Tag(i).String)
			str("flags", i, agentx.Flags(i).String)
			if i < 25 || i > 220 {
				str("known type", i, func() string {
					return fmt.Sprint(agentx.PduTag(i).IsKnown(), asn.Tag(i).IsKnown(), asn.Tag(i).IsValueTag())
				})
				str("flags not allowed", i, func() string { return fmt.Sprint(int(agentx.PduTag(i).NotAllowedFlags(0xff))) })
			}
		}
		for i := 0; i < 280; i++ {
			str("error", i, pduerror.Error(i).String)
		}
		for i := 0; i < 16; i++ {
			str("error", 1<<i+300, pduerror.Error(uint16(1<<i)+300).String)
		}
		return
	})
	pairs("C21", func() (cs []pcall) {
		for _, t := range []int{0, 1, 2, 3, 4, 5, 6, 7, 48, 64, 65, 66, 67, 68, 69, 70, 71, 127, 128, 129, 130, 131, 255} {
			for k, v := range allValues() {
				cs = append(cs, pcall{fmt.Sprintf("tag %d, value %d (%T)", t, k, v), func() string { return fmt.Sprint(asn.Tag(t).IsValidValue(v)) }})
			}
		}
		return
	})
}

// pcall is a call and its result.
type pcall struct {
	name string
	do   func() string
}

// secondCalls makes every call right after every other one.
func secondCalls(r *mc.Runner, cs []pcall) {
	want := make([]string, len(cs))
	for i := range cs {
		want[i] = cs[i].do()
	}
	r.Explore1("every call after every other call", len(cs), 0, func(sh int, c *mc.Ctx) string {
		for j := range cs {
			c.W.Step(2)
			cs[sh].do()
			if got := cs[j].do(); got != want[j] {
				return fmt.Sprintf("%s gives %q right after %s, otherwise %q", cs[j].name, brief(got), cs[sh].name, brief(want[j]))
			}
		}
		return ""
	})
}

// call is a step on one of the trees: what it breaks (a property) and how.
type call struct {
	name string
	do   func(x *tm) (id, msg string)
}

func sparseCalls() (all []call) {
	o := func(x ...uint32) []uint32 { return x }
	put := func(id, name string, f func(x *tm) string) {
		all = append(all, call{name, func(x *tm) (string, string) {
			if m := f(x); m != "" {
				return id, name + ": " + m
			}
			return "", ""
		}})
	}
	for _, q := range [][]uint32{o(1), o(2), o(1, 1), o(1, 2), o(1, 2, 1)} {
		put("C14", "add "+ostr(q), func(x *tm) string { return x.add(q) })
	}
	for _, q := range [][]uint32{o(1), o(1, 1), o(1, 2)} {
		put("C14", "remove "+ostr(q), func(x *tm) string { return x.remove(q) })
	}
	put("C14", "clear", func(x *tm) string { return x.clear() })
	for _, q := range [][]uint32{o(1), o(1, 1), o(1, 2), o(2)} {
		put("C14", "get "+ostr(q), func(x *tm) string {
			x.w.Step(1)
			a := x.arg(q)
			n := x.t.GetNode(a)
			if m := x.spoil(a, q); m != "" {
				return m
			}
			k := x.root.get(q)
			switch {
			case k == nil && n != nil:
				return "found, but it is not in the tree"
			case k != nil && n == nil:
				return "not found"
			case k != nil && (n != k.ptr || n.Data != any(k.data) || n.Subid != k.sub || len(n.Children) != len(k.kids)):
				return "not the node that was added, or its contents are wrong"
			}
			return ""
		})
	}
	next := func(a, b []uint32, incl bool) {
		put("C15", fmt.Sprintf("next %q to %q (include %v)", ostr(a), ostr(b), incl), func(x *tm) string {
			k := append([]uint32(nil), b...)
			p := x.arg(a)
			m := nextCase(x, x.leaves(), p, k, incl)
			if s := x.spoil(p, a); s != "" {
				return s
			}
			if !ref.OidEq(k, b) {
				return "the caller's OID slice was modified"
			}
			return m
		})
	}
	next(nil, nil, false)
	next(o(1), nil, false)
	next(o(1), nil, true)
	next(o(1, 1), nil, false)
	next(o(1), o(1, 2), true)
	next(o(1, 1), o(2), true)
	put("C16", "enumerate", func(x *tm) string {
		ls := x.leaves()
		i, msg := 0, ""
		x.t.ForRangeLeaves(func(q []uint32, n *oid.Node) {
			if msg == "" && (i >= len(ls) || n != ls[i].p || !ref.OidEq(q, ls[i].o)) {
				msg = fmt.Sprintf("call %d is for %s", i+1, ostr(q))
			}
			i++
			for j := range q {
				q[j] = 0xEEEEEEEE
			}
		})
		x.w.Step(1)
		if msg == "" && i != len(ls) {
			msg = fmt.Sprintf("%d calls for %d leaves", i, len(ls))
		}
		return msg
	})
	return
}

func sparse(r *mc.Runner, id string) {
	o := func(x ...uint32) []uint32 { return x }
	all := sparseCalls()
	starts := [][][]uint32{{}, {o(1, 1), o(1, 2)}, {o(1), o(2)}, {o(2), o(1, 2, 1), o(1, 1)}}
	run := func(name string, trees, depth int, calls []call, starts [][][]uint32) {
		n := len(calls) * trees
		r.Explore(name, len(starts)*n*n, 0, func(sh int, c *mc.Ctx) string {
			xs := make([]*tm, trees)
			for i := range xs {
				xs[i] = newTM(c.W, nil)
				xs[i].noLog = true
				for _, q := range starts[sh/(n*n)] {
					if xs[i].add(q) != "" {
						return "" // seen elsewhere
					}
				}
			}
			var seq [8]int
			for s := 0; s < depth; s++ {
				k := 0
				switch s {
				case 0:
					k = sh / n % n
				case 1:
					k = sh % n
				default:
					k = c.Pick(n)
				}
				seq[s] = k
				by, m := calls[k%len(calls)].do(xs[k/len(calls)])
				if by == id {
					h := "history from"
					for _, q := range starts[sh/(n*n)] {
						h += " " + ostr(q)
					}
					for _, k := range seq[:s+1] {
						h += fmt.Sprintf("; %s", calls[k%len(calls)].name)
						if trees > 1 {
							h += fmt.Sprintf(" (tree %d)", k/len(calls)+1)
						}
					}
					return h + ": " + m
				}
				if m != "" {
					return "" // another property
				}
			}
			return ""
		})
	}
	run("single queries between changes", 1, bound(r, 4, 5), all, starts)
	// two trees: fewer calls
	var few []call
	for i, c := range all {
		if i != 1 && i != 4 && i != 7 && i != 11 && i != 12 && i != 15 && i != 18 {
			few = append(few, c)
		}
	}
	run("two trees in turn", 2, bound(r, 4, 5), few, starts[:2])
}
