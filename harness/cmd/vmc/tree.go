package main

import (
	"fmt"
	"sort"

	"github.com/alexispb/mygosnmp/oid"

	"verif/mc"
	"verif/ref"
)

func init() {
	checks["C14"] = checkC14
	checks["C15"] = checkC15
	checks["C16"] = checkC16
}

// tm drives a real tree and its model in lockstep.
type tm struct {
	t     *oid.Tree
	root  *mnode
	uni   [][]uint32 // OIDs looked up after every step
	data  int
	w     *mc.Worker
	light bool // check only what the step touched
	log   []string
	noLog bool
	raw   bool // arguments are passed as they are
	buf   []uint32
}

// mnode is a node of the model: a prefix-closed set as a tree of maps.
type mnode struct {
	sub  uint32
	kids []*mnode // ascending
	up   *mnode
	ptr  *oid.Node
	data int
}

func (m *mnode) kid(s uint32) (int, bool) {
	lo, hi := 0, len(m.kids)
	for lo < hi {
		if k := (lo + hi) / 2; m.kids[k].sub < s {
			lo = k + 1
		} else {
			hi = k
		}
	}
	return lo, lo < len(m.kids) && m.kids[lo].sub == s
}

func (m *mnode) get(o []uint32) *mnode {
	for _, s := range o {
		i, ok := m.kid(s)
		if !ok {
			return nil
		}
		m = m.kids[i]
	}
	return m
}

func newTM(w *mc.Worker, uni [][]uint32) *tm {
	return &tm{t: oid.NewTree(), root: &mnode{}, uni: uni, w: w}
}

// arg gives the tree a slice that is overwritten after the call.
func (x *tm) arg(o []uint32) []uint32 {
	if x.raw {
		return o
	}
	if cap(x.buf) < len(o)+2 {
		x.buf = make([]uint32, len(o)+8)
	}
	b := x.buf[:len(o)+2]
	copy(b, o)
	b[len(o)], b[len(o)+1] = sentinel, sentinel
	return b[:len(o)]
}

func (x *tm) spoil(a, o []uint32) string {
	if x.raw {
		return ""
	}
	if !ref.OidEq(a, o) || x.buf[len(o)] != sentinel || x.buf[len(o)+1] != sentinel {
		return "the caller's OID slice was modified"
	}
	for i := range a {
		a[i] = 0xABABABAB
	}
	return ""
}

func (x *tm) add(o []uint32) string {
	if !x.noLog {
		x.log = append(x.log, "add "+ostr(o))
	}
	x.w.Step(1)
	a := x.arg(o)
	n := x.t.AddNode(a)
	if m := x.spoil(a, o); m != "" {
		return m
	}
	cur, fresh := x.root, 0
	for _, s := range o {
		i, ok := cur.kid(s)
		if !ok {
			k := &mnode{sub: s, up: cur}
			cur.kids = append(cur.kids, nil)
			copy(cur.kids[i+1:], cur.kids[i:])
			cur.kids[i] = k
			fresh++
		}
		cur = cur.kids[i]
	}
	if fresh == 0 {
		if n != nil {
			return "adding an OID that is empty or present returned a node"
		}
		return ""
	}
	if n == nil {
		return "adding a new OID returned nil"
	}
	// walk up the new nodes: they must be new, empty-handed and linked
	for k, p := cur, n; fresh > 0; fresh-- {
		if p == nil || p.Subid != k.sub {
			return "a new node has the wrong sub-identifier"
		}
		if p.Data != nil {
			return "a new node has data already"
		}
		x.data++
		p.Data = x.data
		k.data, k.ptr = x.data, p
		k, p = k.up, p.Parent
	}
	return ""
}

func (x *tm) remove(o []uint32) string {
	if !x.noLog {
		x.log = append(x.log, "remove "+ostr(o))
	}
	x.w.Step(1)
	a := x.arg(o)
	got := x.t.RemoveNode(a)
	if m := x.spoil(a, o); m != "" {
		return m
	}
	k := x.root.get(o)
	want := k != nil && k != x.root
	if want {
		i, _ := k.up.kid(k.sub)
		k.up.kids = append(k.up.kids[:i:i], k.up.kids[i+1:]...)
	}
	if got != want {
		return fmt.Sprintf("remove returned %v", got)
	}
	return ""
}

func (x *tm) clear() string {
	if !x.noLog {
		x.log = append(x.log, "clear")
	}
	x.w.Step(1)
	x.t.Clear()
	x.root.kids = nil
	return ""
}

// check compares the whole tree with the model.
func (x *tm) check() string {
	rootp := x.t.GetNode(nil)
	if rootp != x.t.GetNode([]uint32{}) {
		return "nil and empty OID are looked up differently"
	}
	if rootp != nil && (rootp.Parent != nil || len(rootp.Children) != len(x.root.kids)) {
		return "the root has a parent or the wrong number of children"
	}
	var path [260]uint32
	if m := x.walk(x.root, rootp, path[:0]); m != "" {
		return m
	}
	for _, o := range x.uni {
		if x.root.get(o) == nil {
			x.w.Step(1)
			a := x.arg(o)
			if x.t.GetNode(a) != nil {
				return "lookup found " + ostr(o) + ", which is not in the tree"
			}
			if m := x.spoil(a, o); m != "" {
				return m
			}
		}
	}
	return ""
}

func (x *tm) walk(k *mnode, p *oid.Node, path []uint32) string {
	for i, c := range k.kids {
		path := append(path, c.sub)
		a := x.arg(path)
		n := x.t.GetNode(a)
		x.w.Step(1)
		if m := x.spoil(a, path); m != "" {
			return m
		}
		if n == nil {
			return "lookup of " + ostr(path) + " returned nil although it is in the tree"
		}
		if n != c.ptr {
			return "the node of " + ostr(path) + " changed its identity"
		}
		if d, ok := n.Data.(int); !ok || d != c.data {
			return fmt.Sprintf("the data of %s is %v, want %d", ostr(path), n.Data, c.data)
		}
		if n.Subid != c.sub || n.Parent == nil || p != nil && n.Parent != p {
			return "the node of " + ostr(path) + " has the wrong sub-identifier or parent"
		}
		if p != nil {
			if p.Children[i] != n {
				return "the children of the parent of " + ostr(path) + " are wrong or not sorted"
			}
		} else if i > 0 && n.Parent != k.kids[0].ptr.Parent {
			return "top-level nodes have different parents"
		}
		if len(n.Children) != len(c.kids) {
			return fmt.Sprintf("%s has %d children, want %d", ostr(path), len(n.Children), len(c.kids))
		}
		if m := x.walk(c, n, path); m != "" {
			return m
		}
	}
	return ""
}

func (x *tm) say(m string) string {
	if m == "" {
		return ""
	}
	l := x.log
	if len(l) > 60 {
		l = append([]string{"..."}, l[len(l)-60:]...)
	}
	return fmt.Sprintf("history %v: %s", l, m)
}

func (x *tm) hash(h mc.Hash) mc.Hash { return hashNode(x.root, h) }

func hashNode(k *mnode, h mc.Hash) mc.Hash {
	for _, c := range k.kids {
		h = hashNode(c, h.U(uint64(c.sub)).U(1))
	}
	return h.U(2)
}

type leaf struct {
	o []uint32
	p *oid.Node
}

func (x *tm) leaves() (out []leaf) {
	var rec func(k *mnode, path []uint32)
	rec = func(k *mnode, path []uint32) {
		for _, c := range k.kids {
			p := append(append(make([]uint32, 0, len(path)+1), path...), c.sub)
			if len(c.kids) == 0 {
				out = append(out, leaf{p, c.ptr})
			} else {
				rec(c, p)
			}
		}
	}
	rec(x.root, nil)
	return
}

// forest enumerates prefix-closed sets: forests(alpha, d) counts them,
// pick selects the k'th and calls f for every OID in it (parents first).
func forests(n, d int) int64 {
	f := int64(1)
	for ; d > 0; d-- {
		g := int64(1)
		for i := 0; i < n; i++ {
			g *= 1 + f
		}
		f = g
	}
	return f
}

func forest(alpha []uint32, d int, k int64, path []uint32, f func([]uint32)) {
	if d == 0 {
		return
	}
	sub := forests(len(alpha), d-1) + 1
	for _, a := range alpha {
		c := k % sub
		k /= sub
		if c > 0 {
			p := append(append(make([]uint32, 0, len(path)+1), path...), a)
			f(p)
			forest(alpha, d-1, c-1, p, f)
		}
	}
}

// nodesOf lists the OIDs of the k'th set.
func nodesOf(alpha []uint32, d int, k int64) (out [][]uint32) {
	forest(alpha, d, k, nil, func(o []uint32) { out = append(out, o) })
	return
}

// build reaches the set by one of several histories.
func (x *tm) build(want [][]uint32, all [][]uint32, how int) string {
	do := func(m string) bool { return m != "" }
	switch how {
	case 0: // parents first
		for _, o := range want {
			if m := x.add(o); do(m) {
				return m
			}
		}
	case 1: // leaves only, descending
		for i := len(want) - 1; i >= 0; i-- {
			if x.root.get(want[i]) == nil {
				if m := x.add(want[i]); do(m) {
					return m
				}
			}
		}
	case 2: // everything, then remove what does not belong
		for _, o := range all {
			if x.root.get(o) == nil {
				if m := x.add(o); do(m) {
					return m
				}
			}
		}
		in := map[string]bool{}
		for _, o := range want {
			in[ostr(o)] = true
		}
		for i := len(all) - 1; i >= 0; i-- {
			if !in[ostr(all[i])] && len(all[i]) > 0 && x.root.get(all[i]) != nil {
				if m := x.remove(all[i]); do(m) {
					return m
				}
			}
		}
	case 3: // after a clear, ascending from the deepest
		for _, o := range all {
			if x.root.get(o) == nil {
				if m := x.add(o); do(m) {
					return m
				}
			}
		}
		if m := x.clear(); do(m) {
			return m
		}
		s := append([][]uint32(nil), want...)
		sort.SliceStable(s, func(i, j int) bool { return len(s[i]) > len(s[j]) })
		for _, o := range s {
			if x.root.get(o) == nil {
				if m := x.add(o); do(m) {
					return m
				}
			}
		}
	}
	return ""
}

type space struct {
	name  string
	alpha []uint32
	depth int
	outer []uint32 // alphabet of the OIDs tried beyond the tree's own
	odep  int
}

// chunked runs f for k in [0,n) spread over the workers.
func chunked(r *mc.Runner, name string, n int64, f func(k int64, c *mc.Ctx) string) {
	sh := n
	if sh > 4096 {
		sh = 4096
	}
	r.Explore(name, int(sh), 0, func(s int, c *mc.Ctx) string {
		i := int64(0)
		if span := (n - int64(s) + sh - 1) / sh; span > 1 {
			i = int64(c.Pick(int(span)))
		}
		return f(int64(s)+i*sh, c)
	})
}

func checkC14(r *mc.Runner) {
	r.Assumptions = []string{"the tree is used by one goroutine (concurrent use is C17)", "callers do not change Subid, Parent or Children of nodes", "lookup of the empty OID gives the root or nil"}
	o := func(x ...uint32) []uint32 { return x }
	// all operation sequences, no state merging
	oids1 := [][]uint32{o(), o(1), o(2), o(1, 1), o(1, 2), o(2, 1), o(1, 1, 1)}
	nops := 2*len(oids1) + 1
	steps := bound(r, 6, 7)
	r.Explore("all histories", nops*nops, 0, func(sh int, c *mc.Ctx) string {
		x := newTM(c.W, oids1)
		for s := 0; s < steps; s++ {
			var k int
			switch s {
			case 0:
				k = sh / nops
			case 1:
				k = sh % nops
			default:
				k = c.Pick(nops)
			}
			m := ""
			switch {
			case k == nops-1:
				m = x.clear()
			case k%2 == 0:
				m = x.add(oids1[k/2])
			default:
				m = x.remove(oids1[k/2])
			}
			if m == "" {
				m = x.check()
			}
			if m != "" {
				return x.say(m)
			}
			c.W.State(x.hash(mc.NewHash()).Sum())
		}
		return ""
	})
	// every state, reached by four histories, and every operation on it
	spaces := []space{
		{"2 sub-identifiers, depth 3", o(1, 2), 3, o(0, 1, 2, 3), 2},
		{"extreme sub-identifiers, depth 2", o(0, 0x80000000, 0xffffffff), 2, o(0, 0x7fffffff, 0x80000000, 0xffffffff), 2},
		{"fan of 8", o(0, 1, 5, 255, 256, 0x7fffffff, 0x80000000, 0xffffffff), 1, o(0, 1, 2, 5, 6, 254, 255, 256, 257, 0xfffffffe), 2},
	}
	if r.Thorough() {
		spaces = append(spaces, space{"2 sub-identifiers, depth 4", o(1, 2), 4, o(1, 2, 3), 2},
			space{"fan of 12", o(0, 1, 2, 3, 4, 5, 255, 256, 0x7fffffff, 0x80000000, 0xfffffffe, 0xffffffff), 1, o(0, 1, 2, 5, 6, 254, 257, 0xfffffffd), 1},
			space{"4 sub-identifiers, depth 2", o(0, 1, 0x80000000, 0xffffffff), 2, o(0, 2, 0xffffffff), 2})
	}
	for _, sp := range spaces {
		sp := sp
		all := universe(sp.alpha, sp.depth)
		uni := append(append([][]uint32{}, all...), universe(sp.outer, sp.odep)...)
		hows := 4
		if sp.depth == 4 {
			uni, hows = all, 2
		}
		chunked(r, "every state: "+sp.name, forests(len(sp.alpha), sp.depth), func(k int64, c *mc.Ctx) string {
			want := nodesOf(sp.alpha, sp.depth, k)
			how := c.Pick(hows)
			op := c.Pick(2*len(all) + 1)
			x := newTM(c.W, uni)
			x.noLog = true
			m := x.build(want, all, how)
			if m == "" && op == 0 {
				m = x.check()
				c.W.State(x.hash(mc.NewHash()).Sum())
			}
			if m == "" {
				switch {
				case op == 2*len(all):
					m = x.clear()
				case op%2 == 0:
					m = x.add(all[op/2])
				default:
					m = x.remove(all[op/2])
				}
			}
			if m == "" {
				m = x.check()
			}
			if m != "" {
				what := "clear"
				if op < 2*len(all) {
					what = []string{"add ", "remove "}[op%2] + ostr(all[op/2])
				}
				var w []string
				for _, o := range want {
					w = append(w, ostr(o))
				}
				return fmt.Sprintf("tree %v (built by history %d), then %s: %s", w, how, what, m)
			}
			return ""
		})
	}
	// all insertion orders with all removal orders
	np := bound(r, 5, 6)
	subs := []uint32{0, 3, 7, 0x7fffffff, 0x80000000, 0xffffffff}[:np]
	var fan [][]uint32
	for _, s := range subs {
		fan = append(fan, o(9, s))
	}
	r.Explore("insertion and removal orders", np*(np-1), 0, func(sh int, c *mc.Ctx) string {
		x := newTM(c.W, fan)
		perm := func(first, second int, f func([]uint32) string) string {
			rest := make([]int, np)
			for i := range rest {
				rest[i] = i
			}
			for i := 0; i < np; i++ {
				j := 0
				if i == 0 && first >= 0 {
					j = first
				} else if i == 1 && second >= 0 {
					j = second
				} else {
					j = c.Pick(len(rest))
				}
				k := rest[j]
				rest = append(rest[:j:j], rest[j+1:]...)
				if m := f(fan[k]); m != "" {
					return m
				}
				if m := x.check(); m != "" {
					return m
				}
			}
			return ""
		}
		if m := perm(sh/(np-1), sh%(np-1), x.add); m != "" {
			return x.say(m)
		}
		return x.say(perm(-1, -1, x.remove))
	})
	// wide fans and deep chains
	widths := []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 129, 257}
	tops := [][]uint32{o(), o(1), o(1, 3), o(0, 0, 0), o(1, 3, 6, 1)}
	r.Explore("wide fans", len(widths)*4*5*len(tops), 0, func(sh int, c *mc.Ctx) string {
		top := tops[sh/len(widths)/20]
		sh %= len(widths) * 20
		n, in, out := widths[sh/20], sh/5%4, sh%5
		x := newTM(c.W, nil)
		order := func(how int) []int {
			var p []int
			for i := 0; i < n; i++ {
				switch how {
				case 0:
					p = append(p, i)
				case 1:
					p = append(p, n-1-i)
				case 2: // inside out
					p = append(p, (n/2+(i+1)/2*(1-i%2*2)+2*n)%n)
				case 3:
					p = append(p, i*7919%n)
				}
			}
			seen := map[int]bool{}
			for _, i := range p {
				seen[i] = true
			}
			for i := 0; i < n; i++ {
				if !seen[i] {
					p = append(p, i)
				}
			}
			return p
		}
		at := func(i int) []uint32 { return append(append([]uint32{}, top...), uint32(i)*0x00fe01fd+2, 4) }
		for j, i := range order(in) {
			m := x.add(at(i))
			if m == "" && (j < 40 || j == n-1) {
				m = x.check()
			}
			if m != "" {
				return x.say(m)
			}
		}
		if out == 4 {
			// the node carrying the fan and its ancestors are removed instead,
			// each with the fan put back first
			for k := len(top); k >= 1; k-- {
				m := x.remove(top[:k])
				if m == "" {
					m = x.check()
				}
				for i := 0; m == "" && i < n; i++ {
					m = x.add(at(i))
				}
				if m == "" {
					m = x.check()
				}
				if m != "" {
					return x.say(m)
				}
			}
			return ""
		}
		for j, i := range order(out) {
			q := at(i)
			if i%3 == 1 {
				q = q[:len(top)+1]
			}
			m := x.remove(q)
			if m == "" && (j < 20 || n-j < 20) {
				m = x.check()
			}
			if m != "" {
				return x.say(m)
			}
		}
		return ""
	})
	maxd := bound(r, 140, 250)
	r.Explore("deep chains", maxd, 0, func(sh int, c *mc.Ctx) string {
		d := sh + 1
		full := longOid(nil, d)
		for _, cut := range []int{1, 2, d / 2, d - 1, d} {
			if cut < 1 || cut > d {
				continue
			}
			x := newTM(c.W, nil)
			step := func(m string) string {
				if m == "" {
					m = x.check()
				}
				return m
			}
			side := append(append([]uint32{}, full[:cut-1]...), full[cut-1]^1)
			for _, m := range []func() string{
				func() string { return step(x.add(full)) },
				func() string { return step(x.add(full[:cut])) },
				func() string { return step(x.add(side)) },
				func() string { return step(x.remove(full[:cut])) },
				func() string { return step(x.remove(full[:cut])) },
				func() string { return step(x.add(full)) },
				func() string { return step(x.remove(side)) },
				func() string { return step(x.clear()) },
				func() string { return step(x.add(full[:cut])) },
			} {
				if m := m(); m != "" {
					return x.say(m)
				}
			}
		}
		return ""
	})
	r.Sample("history: add 1.1, add 1, remove 1, add 1.1.1, clear")
}

func nextCase(x *tm, ls []leaf, a, b []uint32, incl bool) string {
	x.w.Step(1)
	got := x.t.GetNextNode(a, b, incl)
	var want *oid.Node
	for i := range ls {
		if cmp := refCompare(ls[i].o, a); cmp > 0 || incl && cmp == 0 {
			if len(b) == 0 || refCompare(ls[i].o, b) < 0 {
				want = ls[i].p
			}
			break
		}
	}
	if got != want {
		name := func(p *oid.Node) string {
			for _, l := range ls {
				if l.p == p {
					return ostr(l.o)
				}
			}
			if p == nil {
				return "none"
			}
			return "a node that is not a leaf of the tree"
		}
		var s []string
		for _, l := range ls {
			s = append(s, ostr(l.o))
		}
		return fmt.Sprintf("leaves %v: GetNext(%q, %q, %v) = %s, want %s", s, ostr(a), ostr(b), incl, name(got), name(want))
	}
	return ""
}

func walkCase(x *tm, ls []leaf) string {
	var at []uint32
	for i := 0; i <= len(ls); i++ {
		n := x.t.GetNextNode(at, nil, false)
		x.w.Step(1)
		if i == len(ls) {
			if n != nil {
				return "the walk does not end after the last leaf"
			}
			break
		}
		if n != ls[i].p {
			return fmt.Sprintf("step %d of the walk does not give leaf %s", i+1, ostr(ls[i].o))
		}
		at = ls[i].o
	}
	return ""
}

func checkC15(r *mc.Runner) {
	r.Assumptions = []string{"a leaf is a node without children other than the root", "the tree is used by one goroutine (concurrent use is C17)"}
	o := func(x ...uint32) []uint32 { return x }
	spaces := []space{
		{"2 sub-identifiers, depth 3", o(1, 3), 3, o(0, 1, 2, 3, 4), 3},
		{"extreme sub-identifiers, depth 2", o(0, 0x80000000, 0xffffffff), 2, o(0, 1, 0x7fffffff, 0x80000000, 0xffffffff), 3},
		{"fan of 8", o(0, 1, 5, 255, 256, 0x7fffffff, 0x80000000, 0xffffffff), 1, o(0, 1, 2, 5, 254, 255, 256, 257, 0x7fffffff, 0x80000000, 0xffffffff), 2},
	}
	if r.Thorough() {
		spaces[0].odep = 4
		spaces = append(spaces, space{"2 sub-identifiers, depth 4", o(1, 3), 4, o(1, 2, 3), 3},
			space{"4 sub-identifiers, depth 2", o(1, 3, 5, 0xffffffff), 2, o(0, 1, 2, 3, 5, 0xffffffff), 2})
	}
	for _, sp := range spaces {
		sp := sp
		uni := universe(sp.outer, sp.odep)
		all := universe(sp.alpha, sp.depth)
		for _, a := range all { // beyond the leaves of full depth
			if len(a) == sp.depth && sp.depth <= 3 {
				for _, s := range sp.outer[:2] {
					uni = append(uni, append(append([]uint32{}, a...), s))
				}
			}
		}
		if sp.depth == 4 {
			uni = append(all, universe(sp.outer, 2)...)
		}
		chunked(r, "every tree and range: "+sp.name, forests(len(sp.alpha), sp.depth), func(k int64, c *mc.Ctx) string {
			x := newTM(c.W, nil)
			x.noLog = true
			want := nodesOf(sp.alpha, sp.depth, k)
			if m := x.build(want, all, int(k%4)); m != "" {
				return "" // C14
			}
			ls := x.leaves()
			c.W.State(x.hash(mc.NewHash()).Sum())
			for _, a := range uni {
				keep := ostr(a)
				for _, b := range uni {
					for _, incl := range []bool{false, true} {
						if m := nextCase(x, ls, a, b, incl); m != "" {
							return m
						}
					}
				}
				if m := nextCase(x, ls, a, nil, true); m != "" {
					return m
				}
				if m := nextCase(x, ls, a, a, true); m != "" {
					return m
				}
				if ostr(a) != keep {
					return "an argument was modified"
				}
			}
			for _, a := range [][]uint32{nil, {}} {
				for _, incl := range []bool{false, true} {
					if m := nextCase(x, ls, a, nil, incl); m != "" {
						return m
					}
				}
			}
			return walkCase(x, ls)
		})
	}
	// get-next between changes: every history of adds and removes
	oids1 := [][]uint32{o(1), o(2), o(1, 1), o(1, 2), o(2, 1), o(1, 1, 1)}
	probe := universe(o(0, 1, 2, 3), 2)
	probe = append(probe, o(1, 1, 0), o(1, 1, 1), o(1, 1, 1, 1), o(1, 1, 2))
	nops := 2*len(oids1) + 1
	r.Explore("histories", nops*nops, 0, func(sh int, c *mc.Ctx) string {
		x := newTM(c.W, nil)
		for s := 0; s < bound(r, 4, 5); s++ {
			k := 0
			switch s {
			case 0:
				k = sh / nops
			case 1:
				k = sh % nops
			default:
				k = c.Pick(nops)
			}
			m := ""
			switch {
			case k == nops-1:
				m = x.clear()
			case k%2 == 0:
				m = x.add(oids1[k/2])
			default:
				m = x.remove(oids1[k/2])
			}
			if m != "" {
				return "" // C14
			}
			ls := x.leaves()
			for i, a := range probe {
				for _, b := range [][]uint32{nil, probe[(i*5+3)%len(probe)], o(1, 2), o(2)} {
					if m := nextCase(x, ls, a, b, i&1 == 0); m != "" {
						return x.say(m)
					}
					if m := nextCase(x, ls, a, b, i&1 == 1); m != "" {
						return x.say(m)
					}
				}
			}
			if m := walkCase(x, ls); m != "" {
				return x.say(m)
			}
		}
		return ""
	})
	widths := []int{1, 2, 3, 8, 16, 17, 33, 64, 100, 129, 257}
	tops := [][]uint32{o(1, 3), o(), o(7), o(0, 0, 0), o(1, 3, 6, 1)}
	r.Explore("wide fans", len(widths)*len(tops), 0, func(sh int, c *mc.Ctx) string {
		n, top := widths[sh%len(widths)], tops[sh/len(widths)]
		o := func(s ...uint32) []uint32 { // ids below 1.3 stand for ids below top
			if len(s) > 1 && s[0] == 1 && s[1] == 3 {
				return append(append([]uint32{}, top...), s[2:]...)
			}
			return s
		}
		x := newTM(c.W, nil)
		var us [][]uint32
		for i := 0; i < n; i++ {
			s := uint32(i)*0x00fe01fd + 2
			q := o(1, 3, s)
			if i%2 == 1 {
				q = o(1, 3, s, 0)
			}
			if m := x.add(q); m != "" {
				return ""
			}
			if n <= 100 || i%8 == 0 {
				us = append(us, o(1, 3, s-1), o(1, 3, s), o(1, 3, s, 0), o(1, 3, s, 1), o(1, 3, s+1))
			}
		}
		us = append(us, o(), o(1), o(1, 2), o(1, 4), o(2), o(0, 9), top)
		ls := x.leaves()
		for _, a := range us {
			for _, b := range us {
				for _, incl := range []bool{false, true} {
					if m := nextCase(x, ls, a, b, incl); m != "" {
						return m
					}
				}
			}
		}
		return walkCase(x, ls)
	})
	maxd := bound(r, 140, 250)
	r.Explore("deep chains", maxd, 0, func(sh int, c *mc.Ctx) string {
		d := sh + 1
		full := longOid(nil, d)
		x := newTM(c.W, nil)
		x.noLog = true
		x.add(full)
		var us [][]uint32
		for cut := 1; cut <= d; cut++ {
			up := append([]uint32{}, full[:cut]...)
			up[cut-1]++
			dn := append([]uint32{}, full[:cut]...)
			dn[cut-1]--
			us = append(us, full[:cut], up, dn)
			if cut%3 == 0 {
				x.add(up)
			}
			if cut%4 == 0 {
				x.add(dn)
			}
		}
		us = append(us, append(append([]uint32{}, full...), 0), append(append([]uint32{}, full...), 0, 0, 0xffffffff))
		ls := x.leaves()
		for _, a := range us {
			for _, b := range us {
				for _, incl := range []bool{false, true} {
					if m := nextCase(x, ls, a, b, incl); m != "" {
						return m
					}
				}
			}
			if m := nextCase(x, ls, a, nil, true); m != "" {
				return m
			}
		}
		return walkCase(x, ls)
	})
	r.Sample("GetNext(\"1.3\", \"3\", include) on leaves 1.1, 1.3.1, 3")
}

func checkC16(r *mc.Runner) {
	r.Assumptions = []string{"the tree is not modified during an enumeration", "a leaf is a node without children other than the root"}
	o := func(x ...uint32) []uint32 { return x }
	run := func(x *tm, how int) string {
		ls := x.leaves()
		var kept [][]uint32
		i, msg := 0, ""
		x.t.ForRangeLeaves(func(q []uint32, n *oid.Node) {
			x.w.Step(1)
			switch {
			case msg != "":
			case i >= len(ls):
				msg = "the function was called for " + ostr(q) + " after the last leaf"
			case !ref.OidEq(q, ls[i].o):
				msg = fmt.Sprintf("call %d: OID %s, want %s", i+1, ostr(q), ostr(ls[i].o))
			case n != ls[i].p:
				msg = fmt.Sprintf("call %d (%s): wrong node", i+1, ostr(q))
			}
			i++
			switch how {
			case 1: // overwrite
				for j := range q {
					q[j] = 0xEEEEEEEE
				}
			case 2: // append in place
				q = append(q, 0xCCCCCCCC, 0xDDDDDDDD)
			case 3: // everything reachable
				f := q[:cap(q)]
				for j := range f {
					f[j] = 0xEEEEEEEE
				}
			}
			kept = append(kept, q)
		})
		if msg == "" && i != len(ls) {
			msg = fmt.Sprintf("the function was called for %d of %d leaves", i, len(ls))
		}
		for k := 0; msg == "" && k < len(kept); k++ {
			want := ls[k].o
			switch how {
			case 1, 3:
				want = make([]uint32, len(want))
				for j := range want {
					want[j] = 0xEEEEEEEE
				}
			case 2:
				want = append(append([]uint32{}, want...), 0xCCCCCCCC, 0xDDDDDDDD)
			}
			if !ref.OidEq(kept[k], want) {
				msg = fmt.Sprintf("the OID kept from call %d is now %s, want %s", k+1, ostr(kept[k]), ostr(want))
			}
		}
		if msg == "" && how > 0 { // the tree did not notice
			msg = x.check()
		}
		if msg == "" && how == 0 { // kept OIDs survive later operations and are independent
			for k := range kept {
				kept[k] = append(kept[k], 5)
				for j := range kept[k] {
					kept[k][j]++
				}
				for l := k + 1; l < len(kept); l++ {
					if !ref.OidEq(kept[l], ls[l].o) {
						return fmt.Sprintf("extending the OID kept from call %d changed the one from call %d to %s", k+1, l+1, ostr(kept[l]))
					}
				}
			}
			msg = x.check()
		}
		return msg
	}
	spaces := []space{
		{"2 sub-identifiers, depth 3", o(1, 3), 3, nil, 0},
		{"extreme sub-identifiers, depth 2", o(0, 0x80000000, 0xffffffff), 2, nil, 0},
		{"fan of 8", o(0, 1, 5, 255, 256, 0x7fffffff, 0x80000000, 0xffffffff), 1, nil, 0},
		{"2 sub-identifiers, depth 4", o(0, 0xffffffff), 4, nil, 0},
	}
	if r.Thorough() {
		spaces = append(spaces, space{"4 sub-identifiers, depth 2", o(1, 3, 5, 0xffffffff), 2, nil, 0}, space{"fan of 16", o(0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 11, 12, 13, 14, 15), 1, nil, 0})
	}
	for _, sp := range spaces {
		sp := sp
		all := universe(sp.alpha, sp.depth)
		chunked(r, "every tree: "+sp.name, forests(len(sp.alpha), sp.depth), func(k int64, c *mc.Ctx) string {
			n := 4
			if sp.depth == 4 && !r.Thorough() {
				n = 2
			}
			how := c.Pick(n)
			x := newTM(c.W, nil)
			x.noLog = true
			want := nodesOf(sp.alpha, sp.depth, k)
			if m := x.build(want, all, int(k+int64(how))%4); m != "" {
				return "" // C14
			}
			c.W.State(x.hash(mc.NewHash()).Sum())
			if m := run(x, how); m != "" {
				var w []string
				for _, o := range want {
					w = append(w, ostr(o))
				}
				return fmt.Sprintf("tree %v, callback variant %d: %s", w, how, m)
			}
			return ""
		})
	}
	widths := []int{1, 2, 3, 8, 16, 17, 33, 64, 100, 129, 257, 600}
	tops := [][]uint32{o(), o(1), o(1, 3), o(0, 0, 0), o(1, 3, 6, 1)}
	fans := len(widths) * len(tops)
	maxd := bound(r, 200, 400)
	r.Explore("wide and deep trees", (fans+maxd)*4, 0, func(sh int, c *mc.Ctx) string {
		x := newTM(c.W, nil)
		x.noLog = true
		if k := sh / 4; k < fans {
			top := tops[k/len(widths)]
			for i := widths[k%len(widths)] - 1; i >= 0; i-- {
				q := append(append([]uint32{}, top...), uint32(i)*0x00fe01fd+2, 1, 2, 3, 4)
				x.add(q[:len(top)+1+i%5])
				if i%3 == 0 {
					q[len(top)+1] = 9
					x.add(q)
				}
			}
		} else {
			d := k - fans + 1
			full := longOid(nil, d)
			x.add(full)
			for cut := 1; cut <= d; cut += 2 {
				q := append([]uint32{}, full[:cut]...)
				q[cut-1] ^= 0x80000000
				x.add(q)
				x.add(append(q, 1, 2))
			}
		}
		return run(x, sh%4)
	})
	r.Sample("leaves 1.1, 1.3.1, 3; callback keeps, overwrites or extends the OID")
}
