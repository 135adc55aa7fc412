package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"

	"github.com/alexispb/mygosnmp/oid"

	"verif/mc"
	"verif/vsched"
)

func init() { checks["C17"] = checkC17 }

type kind int

const (
	kAdd kind = iota
	kGet
	kNext
	kRemove
	kClear
	kLeaves
	kPanic // enumeration whose callback panics at the first leaf
)

type op struct {
	k    kind
	o, e []uint32
	incl bool
}

func ostr(o []uint32) string {
	var buf [256]byte
	s := buf[:0]
	for i, x := range o {
		if i > 0 {
			s = append(s, '.')
		}
		s = strconv.AppendUint(s, uint64(x), 10)
	}
	return string(s)
}

func (o op) String() string {
	n := []string{"add", "get", "next", "remove", "clear", "leaves", "panicking leaves"}[o.k]
	if o.k < kClear {
		if o.k != kClear {
			n += " " + ostr(o.o)
		}
		if o.k == kNext {
			n += fmt.Sprintf("..%s %v", ostr(o.e), o.incl)
		}
	}
	return n
}

// call is one executed operation.
type call struct {
	op
	start, end int
	ptr        *oid.Node
	ok         bool
	oids       []string
	ptrs       []*oid.Node
	key        string
}

func (c *call) show() string {
	r := ""
	switch c.k {
	case kAdd, kGet, kNext:
		r = "nil"
		if c.ptr != nil {
			r = fmt.Sprintf("node(%p)", c.ptr)
		}
	case kRemove:
		r = fmt.Sprint(c.ok)
	case kLeaves, kPanic:
		r = fmt.Sprint(c.oids)
	}
	return fmt.Sprintf("[%d-%d] %s = %s", c.start, c.end, c.op, r)
}

func (c *call) run(t *oid.Tree) {
	c.start = vsched.Now()
	switch c.k {
	case kAdd:
		c.ptr = t.AddNode(c.o)
	case kGet:
		c.ptr = t.GetNode(c.o)
	case kNext:
		c.ptr = t.GetNextNode(c.o, c.e, c.incl)
	case kRemove:
		c.ok = t.RemoveNode(c.o)
	case kClear:
		t.Clear()
	case kLeaves:
		t.ForRangeLeaves(func(o []uint32, n *oid.Node) {
			if vsched.Visits == 0 || len(c.oids) < vsched.Visits {
				vsched.P()
			}
			c.oids = append(c.oids, ostr(o))
			c.ptrs = append(c.ptrs, n)
		})
	case kPanic:
		func() {
			defer func() { recover() }()
			t.ForRangeLeaves(func(o []uint32, n *oid.Node) {
				vsched.P()
				c.oids = append(c.oids, ostr(o))
				c.ptrs = append(c.ptrs, n)
				panic("callback")
			})
		}()
	}
	c.end = vsched.Now()
}

// model is the sequential specification: a prefix-closed set of named nodes.
type mnode struct{ o []uint32 }
type model map[string]*mnode

func (m model) add(o []uint32) *mnode {
	if len(o) == 0 || m[ostr(o)] != nil {
		return nil
	}
	for i := 1; i <= len(o); i++ {
		if k := ostr(o[:i]); m[k] == nil {
			m[k] = &mnode{o[:i:i]}
		}
	}
	return m[ostr(o)]
}

func less(a, b []uint32) bool {
	for i := 0; i < len(a) && i < len(b); i++ {
		if a[i] != b[i] {
			return a[i] < b[i]
		}
	}
	return len(a) < len(b)
}

func (m model) leaves() (out []*mnode) {
	inner := make(map[string]bool, len(m))
	for k := range m { // prefix-closed: it is enough to mark the parents
		if i := strings.LastIndexByte(k, '.'); i >= 0 {
			inner[k[:i]] = true
		}
	}
	for k, n := range m {
		if !inner[k] {
			out = append(out, n)
		}
	}
	sort.Slice(out, func(i, j int) bool { return less(out[i].o, out[j].o) })
	return
}

func (m model) remove(o []uint32) bool {
	k := ostr(o)
	if m[k] == nil {
		return false
	}
	for j := range m {
		if j == k || strings.HasPrefix(j, k+".") {
			delete(m, j)
		}
	}
	return true
}

// bind relates real nodes to model nodes one to one.
type bind struct {
	a map[*oid.Node]*mnode
	b map[*mnode]*oid.Node
}

func (b bind) same(p *oid.Node, n *mnode) bool {
	if p == nil || n == nil {
		return p == nil && n == nil
	}
	x, ok1 := b.a[p]
	y, ok2 := b.b[n]
	if ok1 != ok2 {
		return false
	}
	if ok1 {
		return x == n && y == p
	}
	if p.Subid != n.o[len(n.o)-1] {
		return false
	}
	b.a[p], b.b[n] = n, p
	return true
}

func (m model) apply(c *call, b bind) bool {
	switch c.k {
	case kAdd:
		return b.same(c.ptr, m.add(c.o))
	case kGet:
		return b.same(c.ptr, m[ostr(c.o)])
	case kNext:
		var w *mnode
		for _, n := range m.leaves() {
			if less(c.o, n.o) || c.incl && ostr(c.o) == ostr(n.o) {
				if len(c.e) == 0 || less(n.o, c.e) {
					w = n
				}
				break
			}
		}
		return b.same(c.ptr, w)
	case kRemove:
		return m.remove(c.o) == c.ok
	case kClear:
		for k := range m {
			delete(m, k)
		}
		return true
	case kLeaves, kPanic:
		ls := m.leaves()
		if c.k == kPanic && len(ls) > 1 {
			ls = ls[:1]
		}
		if len(ls) != len(c.oids) {
			return false
		}
		for i, n := range ls {
			if ostr(n.o) != c.oids[i] || !b.same(c.ptrs[i], n) {
				return false
			}
		}
		return true
	}
	return false
}

var uni = [][]uint32{{1}, {2}, {3}, {1, 1}, {1, 2}, {1, 3}, {2, 1}, {1, 1, 1}, {1, 2, 1}, {2, 1, 1}}

// final compares the tree at the end with the model.
func (m model) final(t *oid.Tree, b bind) bool {
	for _, o := range uni {
		if !b.same(t.GetNode(o), m[ostr(o)]) {
			return false
		}
	}
	var c call
	c.k = kLeaves
	c.run(t)
	if !m.apply(&c, b) {
		return false
	}
	fan := map[string]int{}
	for k := range m {
		if i := strings.LastIndexByte(k, '.'); i >= 0 {
			fan[k[:i]]++
		}
	}
	for k, n := range m {
		p := b.b[n]
		if p == nil {
			p = t.GetNode(n.o)
		}
		if p == nil || p.Parent == nil {
			return false
		}
		if fan[k] != len(p.Children) {
			return false
		}
		for i, q := range p.Children {
			if q.Parent != p || i > 0 && p.Children[i-1].Subid >= q.Subid {
				return false
			}
		}
		if len(n.o) > 1 && p.Parent != t.GetNode(n.o[:len(n.o)-1]) {
			return false
		}
	}
	return true
}

var bases = map[*uint32]model{}

// base returns a copy of the model after the setup calls (all of them add new
// nodes); the nodes themselves never change and are shared.
func base(setup []call) model {
	if len(setup) == 0 {
		return model{}
	}
	id := &setup[0].o[0]
	m := bases[id]
	if m == nil {
		m = model{}
		for i := range setup {
			if m.add(setup[i].o) == nil {
				panic("setup adds a node twice")
			}
		}
		bases[id] = m
	}
	c := make(model, len(m)+4)
	for k, n := range m {
		c[k] = n
	}
	return c
}

// linearizable looks for an order of the calls, consistent with real time,
// that the sequential model explains.
func linearizable(setup []call, calls []*call, t *oid.Tree) bool {
	var rec func(done []*call, left []*call) bool
	rec = func(done, left []*call) bool {
		if len(left) == 0 {
			m, b := base(setup), bind{map[*oid.Node]*mnode{}, map[*mnode]*oid.Node{}}
			for i := range setup {
				if !b.same(setup[i].ptr, m[setup[i].key]) {
					return false
				}
			}
			for _, c := range done {
				if !m.apply(c, b) {
					return false
				}
			}
			return m.final(t, b)
		}
		for i, c := range left {
			first := true
			for _, d := range left {
				if d != c && d.end < c.start {
					first = false
				}
			}
			if !first {
				continue
			}
			rest := append(append([]*call(nil), left[:i]...), left[i+1:]...)
			if rec(append(done[:len(done):len(done)], c), rest) {
				return true
			}
		}
		return false
	}
	return rec(nil, calls)
}

type scenario struct {
	setup   [][]uint32
	threads [][]op
}

func (s scenario) String() string {
	var t []string
	for _, o := range s.setup {
		t = append(t, ostr(o))
	}
	return fmt.Sprintf("tree %v, threads %v", t, s.threads)
}

func (s scenario) build() (*oid.Tree, []call) {
	t := oid.NewTree()
	var setup []call
	for _, o := range s.setup {
		c := call{op: op{k: kAdd, o: o}, key: ostr(o)}
		c.run(t)
		setup = append(setup, c)
	}
	return t, setup
}

func (s scenario) bodies(t *oid.Tree) (fs []func(), calls []*call) {
	for _, ops := range s.threads {
		var cs []*call
		for _, o := range ops {
			c := &call{op: o}
			cs = append(cs, c)
			calls = append(calls, c)
		}
		fs = append(fs, func() {
			for _, c := range cs {
				c.run(t)
			}
		})
	}
	return
}

func checkC17(r *mc.Runner, x *env) {
	r.Assumptions = []string{"scheduling points are statement boundaries and lock operations; finer interleavings are covered by the race detector (no unordered conflicting access in any explored schedule)",
		"locks behave as modelled in verif/vsync (mutual exclusion, writers preferred)", "callbacks do not call back into the tree", "bounds: 2-3 threads, 1-3 calls, trees of up to 5 nodes (large trees: 71-100), preemption bound as listed"}
	o := func(x ...uint32) []uint32 { return x }
	trees := [][][]uint32{nil, {o(1, 1), o(1, 2)}, {o(1), o(2, 1, 1)}}
	ops := []op{{k: kAdd, o: o(1)}, {k: kAdd, o: o(1, 1)}, {k: kAdd, o: o(1, 2)}, {k: kAdd, o: o(1, 1, 1)}, {k: kGet, o: o(1, 1)}, {k: kGet, o: o(1, 1, 1)},
		{k: kNext}, {k: kNext, o: o(1, 1)}, {k: kNext, o: o(1, 1), e: o(2), incl: true}, {k: kRemove, o: o(1)}, {k: kRemove, o: o(1, 1)}, {k: kClear}, {k: kLeaves}, {k: kPanic}}
	few := []op{ops[1], ops[3], ops[4], ops[7], ops[9], ops[11], ops[12]}
	run := func(name string, ss []scenario, limits []int) {
		bounded(r, x, name, len(ss), func(i int) []func() {
			t, _ := ss[i].build()
			fs, _ := ss[i].bodies(t)
			return fs
		}, limits, func(i int, c *mc.Ctx) string {
			s := ss[i]
			t, setup := s.build()
			fs, calls := s.bodies(t)
			if m := x.schedule(c, fs...); m != "" {
				return s.String() + ": " + m
			}
			if !linearizable(setup, calls, t) {
				msg := s.String() + ": no sequential order explains the results\n"
				for _, c := range calls {
					msg += c.show() + "\n"
				}
				return msg
			}
			h := mc.NewHash().Str(name).U(uint64(i))
			for _, c := range calls {
				h = h.U(boolu(c.ok) + 2*boolu(c.ptr != nil)).U(uint64(len(c.oids)))
			}
			c.W.State(h.Sum())
			return ""
		})
	}
	var pairs, twoone, three, twotwo []scenario
	for _, t := range trees {
		for i, a := range ops {
			for _, b := range ops[i:] {
				pairs = append(pairs, scenario{t, [][]op{{a}, {b}}})
			}
		}
		for _, a := range few {
			for _, b := range few {
				for _, d := range few {
					twoone = append(twoone, scenario{t, [][]op{{a, b}, {d}}})
				}
			}
		}
		for i, a := range few {
			for j, b := range few[i:] {
				for _, d := range few[i+j:] {
					three = append(three, scenario{t, [][]op{{a}, {b}, {d}}})
				}
			}
		}
	}
	// two updates by one thread, or by two, around any single call: what lies
	// between the two must be seen as a whole
	writers := []op{ops[0], ops[1], ops[2], ops[3], ops[9], ops[10], {k: kRemove, o: o(1, 2)}, ops[11]}
	probes := append(append([]op(nil), ops...), op{k: kNext, o: o(1, 2), incl: true}, op{k: kGet, o: o(1)}, op{k: kRemove, o: o(1, 2)})
	var around, between []scenario
	for _, t := range [][][]uint32{trees[0], trees[1], {o(1, 2)}, {o(1, 1, 1)}} {
		for i, a := range writers {
			for j, b := range writers {
				for _, d := range probes {
					around = append(around, scenario{t, [][]op{{a, b}, {d}}})
					if j >= i {
						between = append(between, scenario{t, [][]op{{a}, {b}, {d}}})
					}
				}
			}
		}
	}
	if x.shard == 0 {
		r.Sample(pairs[20].String())
		r.Sample(twoone[100].String())
	}
	if !r.Thorough() {
		run("2 threads, 1 call each", pairs, []int{25, 4000})
		run("2 threads, 2 and 1 calls", twoone, nil)
		run("3 threads, 1 call each", three, nil)
		run("2 updates around a call", around, nil)
		run("2 updating threads and a call", between, nil)
	} else {
		for _, t := range trees {
			for _, a := range few {
				for _, b := range few {
					for _, d := range few {
						for _, e := range few[:5] {
							twotwo = append(twotwo, scenario{t, [][]op{{a, b}, {d, e}}})
						}
					}
				}
			}
		}
		run("2 threads, 1 call each", pairs, []int{120, 4000})
		run("2 threads, 2 and 1 calls", twoone, []int{0, 4000})
		run("3 threads, 1 call each", three, []int{0, 4000})
		run("2 threads, 2 calls each", twotwo, nil)
		run("2 updates around a call", around, []int{0, 4000})
		run("2 updating threads and a call", between, []int{0, 300})
	}
	// large trees: wide, deep, and many small families
	var wide, deep, many [][]uint32
	for i := uint32(1); i <= 70; i++ {
		wide = append(wide, o(1, i*3))
		many = append(many, o(1, i%9+1, i))
	}
	chain := o(1)
	for len(chain) < 50 {
		chain = append(chain, uint32(len(chain)))
		deep = append(deep, append(append([]uint32(nil), chain...), 0))
	}
	deep = append(deep[:len(deep)-1], o(2), deep[len(deep)-1])
	bigOps := func(t [][]uint32) (w, rd []op) {
		first, mid, last := t[0], t[len(t)/2], t[len(t)-1]
		under := func(x []uint32, y uint32) []uint32 { return append(append([]uint32(nil), x...), y) }
		w = []op{{k: kRemove, o: o(1)}, {k: kClear}, {k: kAdd, o: under(first, 1)}, {k: kAdd, o: under(last, 7)}, {k: kAdd, o: under(under(mid, 4), 9)}, {k: kAdd, o: o(1, 1000)}, {k: kRemove, o: mid}, {k: kRemove, o: first}, {k: kRemove, o: last}}
		rd = []op{{k: kLeaves}, {k: kNext, o: mid}, {k: kNext, o: last, incl: true}, {k: kNext, o: o(1, 5000)}, {k: kGet, o: last}, {k: kGet, o: mid}, {k: kPanic}}
		return
	}
	var large []scenario
	for _, t := range [][][]uint32{wide, deep, many} {
		w, rd := bigOps(t)
		for i, a := range w {
			for _, b := range append(append([]op(nil), rd...), w[i:]...) {
				large = append(large, scenario{t, [][]op{{a}, {b}}})
			}
			for _, b := range w {
				if r.Thorough() || i > 1 && i != 4 && b.k != kClear {
					large = append(large, scenario{t, [][]op{{a, b}, {rd[0]}}}, scenario{t, [][]op{{a, b}, {rd[1]}}}, scenario{t, [][]op{{a}, {b}, {rd[0]}}})
				}
			}
		}
	}
	old := vsched.Visits
	vsched.Visits = 2
	if r.Thorough() {
		vsched.Visits = 6
	}
	r.Note(fmt.Sprintf("large trees: a thread can be preempted at the first %d executions of each statement", vsched.Visits))
	run("large trees", large, nil)
	vsched.Visits = old
	// readers run at the same time: an enumeration whose callback waits for
	// another reader must not block it
	readers := []op{{k: kGet, o: o(1, 1)}, {k: kNext, o: o(1)}, {k: kLeaves}}
	r.ExploreOf("concurrent readers", x.mine(len(readers)*2), 2, func(i int, c *mc.Ctx) string {
		t, _ := scenario{setup: trees[1]}.build()
		var done vsched.Flag
		cl := &call{op: readers[i/2]}
		n := 0
		m := x.schedule(c, func() {
			t.ForRangeLeaves(func(q []uint32, _ *oid.Node) {
				if n++; n == 1 {
					vsched.Block("the other reader", &done)
				}
			})
		}, func() {
			cl.run(t)
			done.Set()
		})
		if m != "" {
			return fmt.Sprintf("an enumeration is under way and its callback waits for %s: %s", cl.op, m)
		}
		if i%2 == 1 { // the tree is still usable by writers
			if t.AddNode(o(3)) == nil || !t.RemoveNode(o(1)) {
				return "the tree is not usable after concurrent readers"
			}
		}
		return ""
	})
}

func boolu(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}
