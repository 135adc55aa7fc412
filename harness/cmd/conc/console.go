package main

import (
	"errors"
	"fmt"
	"os"
	"strings"
	"time"

	"github.com/alexispb/mygosnmp/logger"
	"github.com/alexispb/mygosnmp/oid"

	"verif/mc"
	"verif/vsched"
)

func init() { checks["C24"] = checkC24 }

// record is one call of the logger and what it has to put on standard output.
type record struct {
	plain bool
	f     string
	args  []interface{}
}

func (r record) want() string {
	if r.plain {
		return r.f + "\n"
	}
	return fmt.Sprintf(r.f, r.args...) + "\n"
}

func (r record) write(l logger.Log) {
	if r.plain {
		l.Write(r.f)
	} else {
		l.Writef(r.f, r.args...)
	}
}

func (r record) String() string {
	if r.plain {
		return fmt.Sprintf("Write(%s)", short(r.f))
	}
	return fmt.Sprintf("Writef(%s, %d args)", short(r.f), len(r.args))
}

func short(s string) string {
	if len(s) > 60 {
		return fmt.Sprintf("%q...(%d bytes)", s[:60], len(s))
	}
	return fmt.Sprintf("%q", s)
}

// nosy is a value whose formatting runs code of the repository.
type nosy struct{ o []uint32 }

func (n nosy) String() string { return "<" + oid.String(n.o) + ">" }

func records() (rs []record) {
	p := func(s string) { rs = append(rs, record{plain: true, f: s}) }
	f := func(s string, a ...interface{}) { rs = append(rs, record{f: s, args: a}) }
	p("hello")
	f("n=%d s=%s", 5, "x")
	p("")
	f("")
	p("\n")
	p("two\nlines")
	p("ends with newline\n")
	f("ends with newline %d\n", 1)
	p("100%")
	p("%d %s %!v %%")
	f("100%%")
	f("%s", "a%db")
	f("plain, no verbs")
	p("tab\tcr\rnul\x00bel\x07esc\x1b[31m")
	p("h\u00e9\u20ac\U0001f600 \xff\xfe")
	p("  leading and trailing blanks  ")
	f("%v", nosy{[]uint32{1, 3, 6}})
	f("%d", "wrong type")
	f("%d %d", 1)
	f("surplus", 1, "x")
	f("%d", 1, errors.New("surplus"))
	f("ends in percent %")
	f("ends in percent %", 1)
	f("%v", nil)
	f("%s", []byte("bytes\x00\xff"))
	f("%x|%08d|%-5s|%+v|%q|%T", "hex", 42, "ab", struct{ A int }{1}, "q", 1.5)
	f("%[2]d %[1]d", 1, 2)
	f("%5.2f %t %c %U %p", 3.14159, true, 'x', 0x1F600, nil)
	p(strings.Repeat("0123456789abcdef", 4096))
	f("%s!", strings.Repeat("fedcba9876543210", 8200))
	p(strings.Repeat("l\n", 3000))
	return
}

func (x *env) size() int64 {
	st, err := os.Stat(x.capture)
	if err != nil {
		panic(err)
	}
	return st.Size()
}

// since reads what was written after offset; it waits a while for want bytes.
func (x *env) since(off int64, want int) string {
	end := time.Now().Add(2 * time.Second)
	for x.size()-off < int64(want) && time.Now().Before(end) {
		time.Sleep(time.Millisecond)
	}
	f, err := os.Open(x.capture)
	if err != nil {
		panic(err)
	}
	defer f.Close()
	b := make([]byte, x.size()-off)
	n, _ := f.ReadAt(b, off)
	return string(b[:n])
}

func diff(got, want string) string {
	i := 0
	for i < len(got) && i < len(want) && got[i] == want[i] {
		i++
	}
	return fmt.Sprintf("standard output has %d bytes, wanted %d; first difference at %d: got %s, wanted %s", len(got), len(want), i, short(got[i:]), short(want[i:]))
}

// trim keeps the capture file small.
func (x *env) trim(off int64) int64 {
	if off > 64<<20 {
		os.Truncate(x.capture, 0)
		return 0
	}
	return off
}

func checkC24(r *mc.Runner, x *env) {
	r.Assumptions = []string{"standard output is a file that accepts every write in full", "a record counts as lost when it has not appeared 2 s after the call returned",
		"bounds: sequences of up to 3 records of the alphabet; 2-3 goroutines with up to 2 records each; every single byte, and record lengths up to 4 MB"}
	rs := records()
	body := func(seq []record, own bool) string {
		off := x.trim(x.size())
		want := ""
		l := logger.Console()
		for _, rec := range seq {
			if own {
				l = logger.Console()
			}
			rec.write(l)
			want += rec.want()
		}
		if got := x.since(off, len(want)); got != want {
			return fmt.Sprintf("%v: %s", seq, diff(got, want))
		}
		return ""
	}
	n := len(rs)
	if x.shard == 0 {
		r.Sample(fmt.Sprint(rs[:6]))
	}
	depth := 2
	if r.Thorough() {
		depth = 3
	}
	// sequences: the first record is the shard
	r.ExploreOf("record sequences", x.mine(n), 0, func(i int, c *mc.Ctx) string {
		seq := []record{rs[i]}
		h := mc.NewHash().Str("seq").U(uint64(i))
		for k := 1; k < depth; k++ {
			j := c.Pick(n + 1)
			if j == n {
				break
			}
			seq = append(seq, rs[j])
			h = h.U(uint64(j))
		}
		own := c.Pick(2) == 1
		c.W.Step(len(seq))
		if m := body(seq, own); m != "" {
			return m
		}
		c.W.State(h.Sum())
		return ""
	})
	// every byte alone, inside and at the end; as text and as argument
	r.ExploreOf("bytes", x.mine(256), 0, func(i int, c *mc.Ctx) string {
		s := string([]byte{byte(i)})
		var seq []record
		for _, t := range []string{s, "a" + s, s + "a", "a" + s + "b", s + s} {
			seq = append(seq, record{plain: true, f: t}, record{f: "%s", args: []interface{}{t}})
			if i != '%' {
				seq = append(seq, record{f: t}, record{f: t + "%d", args: []interface{}{7}})
			}
		}
		c.W.Step(len(seq))
		c.W.State(mc.NewHash().Str("byte").U(uint64(i)).Sum())
		return body(seq, false)
	})
	// two letter formats with 0-2 arguments
	letters := "dsvxqXoObBcUeEfFgGtTpw%+-# 0123.*[]!azZ\n"
	r.ExploreOf("formats", x.mine(len(letters)*len(letters)), 0, func(i int, c *mc.Ctx) string {
		f := "a%" + letters[i/len(letters):][:1] + letters[i%len(letters):][:1]
		var seq []record
		for _, a := range [][]interface{}{nil, {3}, {"x"}, {1, 2}, {2, "y"}} {
			seq = append(seq, record{f: f, args: a}, record{f: f + "z", args: a})
		}
		c.W.Step(len(seq))
		c.W.State(mc.NewHash().Str("format").Str(f).Sum())
		return body(seq, false)
	})
	var lens []int
	for k := 0; k <= 300; k++ {
		lens = append(lens, k)
	}
	for k := 9; k <= 16; k++ {
		lens = append(lens, 1<<k-2, 1<<k-1, 1<<k, 1<<k+1)
	}
	lens = append(lens, 65535, 65537, 70000)
	for k := 17; k <= 22; k++ {
		lens = append(lens, 1<<k-1, 1<<k, 1<<k+1)
	}
	r.ExploreOf("lengths", x.mine(len(lens)), 0, func(i int, c *mc.Ctx) string {
		s := strings.Repeat("x", lens[i])
		c.W.Step(3)
		c.W.State(mc.NewHash().Str("len").U(uint64(i)).Sum())
		return body([]record{{plain: true, f: s}, {f: "%s", args: []interface{}{s}}, {plain: true, f: "."}}, false)
	})
	// concurrent records
	type scen struct {
		threads [][]record
		own     bool // every thread has a logger of its own
	}
	var ss []scen
	pool := []record{{plain: true, f: "alpha"}, {f: "beta %d", args: []interface{}{1}}, {plain: true, f: "two\nlines"}, {plain: true, f: ""}, {f: "%v tail", args: []interface{}{nosy{[]uint32{1, 3, 6}}}},
		{plain: true, f: strings.Repeat("x", 5000)}, {f: "%s", args: []interface{}{strings.Repeat("y", 9000)}}}
	for i := range pool {
		for j := range pool {
			ss = append(ss, scen{[][]record{{pool[i]}, {pool[j]}}, false}, scen{[][]record{{pool[i]}, {pool[j]}}, true})
			for k := range pool {
				for _, own := range []bool{false, true} {
					ss = append(ss, scen{[][]record{{pool[i], pool[j]}, {pool[k]}}, own})
					if !own || r.Thorough() {
						ss = append(ss, scen{[][]record{{pool[i]}, {pool[j]}, {pool[k]}}, own})
					}
				}
				if r.Thorough() || i == 0 || i == 5 {
					for m := range pool {
						ss = append(ss, scen{[][]record{{pool[i], pool[j]}, {pool[k], pool[m]}}, m%2 == 1})
					}
				}
			}
		}
	}
	type done struct {
		rec        record
		tag        string
		start, end int
	}
	build := func(i int) (fs []func(), ds []*done) {
		l := logger.Console()
		for t, recs := range ss[i].threads {
			l := l
			if ss[i].own {
				l = logger.Console()
			}
			var mine []*done
			for k, rec := range recs {
				// every record is unique and ends in its tag
				d := &done{rec: rec, tag: fmt.Sprintf("#%d%d", t, k)}
				d.rec.f += d.tag
				mine = append(mine, d)
				ds = append(ds, d)
			}
			fs = append(fs, func() {
				for _, d := range mine {
					d.start = vsched.Now()
					d.rec.write(l)
					d.end = vsched.Now()
				}
			})
		}
		return
	}
	lim := []int{12, 60}
	if r.Thorough() {
		lim = []int{40, 200}
	}
	bounded(r, x, "concurrent records", len(ss), func(i int) []func() {
		fs, _ := build(i)
		return fs
	}, lim, func(i int, c *mc.Ctx) string {
		vsched.Reset()
		off := x.trim(x.size())
		fs, ds := build(i)
		if m := x.schedule(c, fs...); m != "" {
			return m
		}
		n := 0
		for _, d := range ds {
			n += len(d.rec.want())
		}
		got := x.since(off, n)
		rest := got
		used := map[*done]bool{}
		var order []*done
		for len(order) < len(ds) {
			var hit *done
			for _, d := range ds {
				if !used[d] && strings.HasPrefix(rest, d.rec.want()) {
					hit = d
					break
				}
			}
			if hit == nil {
				break
			}
			for _, d := range ds {
				if d != hit && !used[d] && d.end < hit.start {
					return fmt.Sprintf("%v: record %s written before %s is after it in the output", ss[i].threads, d.rec, hit.rec)
				}
			}
			used[hit] = true
			order = append(order, hit)
			rest = rest[len(hit.rec.want()):]
		}
		if len(order) < len(ds) || rest != "" {
			s := got
			if len(s) > 400 {
				s = s[:200] + " ... " + s[len(s)-200:]
			}
			return fmt.Sprintf("%v: standard output is not a sequence of the whole records: %q", ss[i].threads, s)
		}
		h := mc.NewHash().Str("conc").U(uint64(i))
		for _, d := range order {
			h = h.Str(d.tag)
		}
		c.W.State(h.Sum())
		return ""
	})
}
