// Package mc is a small stateless model checker. A check is a body of
// nondeterministic choices (Pick: free, Dev: costs one deviation when it
// departs from the default); the explorer re-executes the body for every
// choice sequence within the deviation bound, on the real code, and the body
// compares every step with a reference model.
package mc

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
	"unicode"
)

type point struct {
	n, v int32
	dev  bool
}

// Ctx is one execution's source of choices.
type Ctx struct {
	script []point // choices to replay, then defaults
	trace  []point
	bound  int
	used   int
	lax    bool // go on after a divergence
	Div    bool // the execution diverged from its script
	NoBig  bool // DevBig offers its small alphabet only
	W      *Worker
}

//go:norace
func (c *Ctx) next(n int, dev bool) int {
	if n <= 0 {
		panic("mc: choice among nothing")
	}
	i := len(c.trace)
	v := int32(0)
	if i < len(c.script) {
		s := c.script[i]
		if int(s.n) != n || s.dev != dev {
			if c.lax {
				c.Div = true
				c.script = c.script[:i]
				c.trace = append(c.trace, point{int32(n), 0, dev})
				return 0
			}
			panic(fmt.Sprintf("mc: replay divergence at choice %d: had n=%d, now n=%d", i, s.n, n))
		}
		v = s.v
	}
	c.trace = append(c.trace, point{int32(n), v, dev})
	if dev && v != 0 {
		c.used++
	}
	return int(v)
}

// Pick explores all n alternatives at no cost.
//
//go:norace
func (c *Ctx) Pick(n int) int {
	if n == 1 {
		return 0
	}
	return c.next(n, false)
}

// Dev explores the default (0) and, while deviations are left, the others.
//
//go:norace
func (c *Ctx) Dev(n int) int {
	if n == 1 || c.used >= c.bound {
		return 0
	}
	return c.next(n, true)
}

// Fresh reports that no deviation has been spent so far.
func (c *Ctx) Fresh() bool { return c.used == 0 && c.bound > 0 }

// Left is the number of deviations left.
func (c *Ctx) Left() int { return c.bound - c.used }

// Spend uses up all deviations.
func (c *Ctx) Spend() { c.used = c.bound }

// PickOf picks from vals for free.
func PickOf[T any](c *Ctx, vals []T) T { return vals[c.Pick(len(vals))] }

// DevOf: vals[0] is the default; any other value costs a deviation.
func DevOf[T any](c *Ctx, vals []T) T { return vals[c.Dev(len(vals))] }

// DevBig is DevOf with a second, large alphabet that is only combined with
// defaults everywhere else.
func DevBig[T any](c *Ctx, small, big []T) T {
	n := len(small)
	if c.Fresh() && len(big) > 0 && !c.NoBig {
		n++
	}
	i := c.Dev(n)
	if i < len(small) {
		return small[i]
	}
	c.Spend()
	return big[c.Pick(len(big))]
}

// Worker holds the measurements of one exploring goroutine.
type Worker struct {
	r       *Runner
	id      int
	Execs   int64
	Steps   int64 // transitions: implementation steps compared with the model
	started atomic.Int64
	beat    atomic.Int64 // goes on with every step
	cur     atomic.Pointer[Ctx]
	curSh   atomic.Int64
	outc    map[string]int64
	buf     []point
}

// Detached is a worker outside any exploration.
func Detached() *Worker {
	return &Worker{r: NewRunner("", "", 0, "", 0), outc: map[string]int64{}}
}

// Step counts one implementation step compared with the model.
func (w *Worker) Step(n int) {
	w.Steps += int64(n)
	if b := w.beat.Add(1); b&63 == 0 && w.r.Abort && w.r.Overdue() {
		panic(Overdue)
	}
}

// Overdue ends an execution that is under way when the time is used up.
const Overdue = "mc: time used up"

// Depth is the number of choices made so far in the current execution.
func (w *Worker) Depth() int { return len(w.cur.Load().trace) }

// State records a visited model state by its hash.
func (w *Worker) State(h uint64) { w.r.states.add(h) }

// Outcome counts a class of observed outcome.
func (w *Worker) Outcome(s string) { w.outc[s]++ }

// Runner runs the explorations of one property.
type Runner struct {
	Property string
	Tier     string
	Seed     int
	Replay   *Replay
	Workers  int
	OutDir   string
	Abort    bool // executions under way end when the time is used up
	Lax      bool // executions may be nondeterministic: give up exhaustiveness, not the run
	diverged atomic.Int64
	only     []int

	mu          sync.Mutex
	deadline    time.Time
	start       time.Time
	states      set
	extraStates int64
	execs       int64
	steps       int64
	outcomes    map[string]int64
	samples     []any
	explored    []map[string]any
	exhaustive  bool
	Assumptions []string
	notes       []string
	vio         *Replay
	stop        atomic.Bool
}

// Replay identifies one failing execution.
type Replay struct {
	Property    string   `json:"property"`
	Exploration string   `json:"exploration"`
	Tier        string   `json:"tier"`
	Shard       int      `json:"shard"`
	Bound       int      `json:"bound"`
	Script      []string `json:"script"`
	Message     string   `json:"message"`
	Reproduced  string   `json:"reproduced"`
	HowTo       string   `json:"how_to_replay"`
}

func (r *Runner) Thorough() bool { return r.Tier == "thorough" }

func NewRunner(prop, tier string, seed int, out string, budget time.Duration) *Runner {
	r := &Runner{Property: prop, Tier: tier, Seed: seed, OutDir: out,
		Workers: runtime.GOMAXPROCS(0), exhaustive: true,
		outcomes: map[string]int64{}, start: time.Now(), deadline: time.Now().Add(budget)}
	r.states.init()
	return r
}

func encodeTrace(t []point) []string {
	s := make([]string, len(t))
	for i, p := range t {
		d := ""
		if p.dev {
			d = "d"
		}
		s[i] = fmt.Sprintf("%d/%d%s", p.v, p.n, d)
	}
	return s
}

func decodeTrace(s []string) []point {
	t := make([]point, len(s))
	for i, x := range s {
		t[i].dev = strings.HasSuffix(x, "d")
		fmt.Sscanf(strings.TrimSuffix(x, "d"), "%d/%d", &t[i].v, &t[i].n)
	}
	return t
}

// Body is one execution; a non-empty message is a violation.
type Body func(shard int, c *Ctx) string

func runOne(body Body, shard, bound int, script []point, w *Worker) (msg string, trace []point) {
	c := &Ctx{script: script, bound: bound, W: w, trace: w.buf[:0], lax: w.r.Lax}
	w.curSh.Store(int64(shard))
	w.cur.Store(c)
	func() {
		defer func() {
			if e := recover(); e != nil {
				s := fmt.Sprint(e)
				if s == Overdue {
					return // seen by the caller
				}
				if strings.HasPrefix(s, "mc:") {
					panic(e)
				}
				msg = "panic: " + s + "\n" + string(debug.Stack())
			}
		}()
		msg = body(shard, c)
	}()
	if c.Div {
		w.r.diverged.Add(1)
	}
	w.buf = c.trace
	return msg, c.trace
}

const hang = 150 * time.Second
const memLimit = 6 << 30

// Explore enumerates all executions of body for every shard.
func (r *Runner) Explore(name string, shards, bound int, body Body) {
	r.explore(name, shards, bound, r.Workers, body)
}

// Explore1 does it in a single goroutine.
func (r *Runner) Explore1(name string, shards, bound int, body Body) {
	r.explore(name, shards, bound, 1, body)
}

// ExploreOf explores the given shards only, in a single goroutine.
func (r *Runner) ExploreOf(name string, shards []int, bound int, body Body) {
	r.only = shards
	r.explore(name, len(shards), bound, 1, body)
	r.only = nil
}

func (r *Runner) explore(name string, shards, bound, workers int, body Body) {
	if r.Replay != nil {
		if r.Replay.Exploration != name {
			return
		}
		w := &Worker{r: r, outc: map[string]int64{}}
		msg, _ := runOne(body, r.Replay.Shard, r.Replay.Bound, decodeTrace(r.Replay.Script), w)
		r.execs++
		if msg != "" {
			r.violation(name, r.Replay.Shard, r.Replay.Bound, decodeTrace(r.Replay.Script), msg, "replayed")
		} else {
			fmt.Println("replay: no violation")
		}
		return
	}
	if r.stop.Load() {
		return
	}
	if r.Abort && r.Overdue() {
		r.exhaustive = false
		r.explored = append(r.explored, map[string]any{"name": name, "shards": shards, "deviation_bound": bound, "executions": 0, "steps": 0, "complete": false})
		return
	}
	t0 := time.Now()
	var next atomic.Int64
	var wg sync.WaitGroup
	ws := make([]*Worker, workers)
	var full atomic.Bool
	full.Store(true)
	for i := range ws {
		w := &Worker{r: r, id: i, outc: map[string]int64{}}
		ws[i] = w
		wg.Add(1)
		go func() {
			defer wg.Done()
			for !r.stop.Load() {
				sh := int(next.Add(1) - 1)
				if sh >= shards {
					return
				}
				if r.only != nil {
					sh = r.only[sh]
				}
				var script []point
				for {
					w.beat.Store(0)
					w.started.Store(time.Now().UnixNano())
					msg, tr := runOne(body, sh, bound, script, w)
					w.started.Store(0)
					w.Execs++
					if msg != "" {
						if r.stop.CompareAndSwap(false, true) {
							tr = append([]point(nil), tr...)
							rep := 0
							for k := 0; k < 5; k++ {
								if m, _ := runOne(body, sh, bound, tr, w); m != "" {
									rep++
								}
							}
							r.violation(name, sh, bound, tr, msg, fmt.Sprintf("%d/5", rep))
						}
						return
					}
					if r.stop.Load() {
						full.Store(false)
						return
					}
					if (w.Execs&63 == 0 || w.beat.Load() > 63) && r.Overdue() {
						full.Store(false)
						return
					}
					// backtrack
					k := len(tr) - 1
					for k >= 0 && tr[k].v+1 >= tr[k].n {
						k--
					}
					if k < 0 {
						break
					}
					script = append(script[:0], tr[:k+1]...)
					script[k].v++
				}
			}
		}()
	}
	done := make(chan struct{})
	go func() { wg.Wait(); close(done) }()
	type pulse struct{ s, b, at int64 }
	last := make([]pulse, workers)
	tick := time.NewTicker(500 * time.Millisecond)
	defer tick.Stop()
loop:
	for {
		select {
		case <-done:
			break loop
		case <-tick.C:
			why := ""
			var old *Worker
			var since, idle int64
			for i, w := range ws {
				s := w.started.Load()
				if p := (pulse{s, w.beat.Load(), 0}); p.s != last[i].s || p.b != last[i].b {
					p.at = time.Now().UnixNano()
					last[i] = p
				}
				if s != 0 && (old == nil || s < since) {
					old, since = w, s
				}
			}
			for i, w := range ws {
				if last[i].s != 0 && (idle == 0 || last[i].at < idle) {
					idle = last[i].at
					if time.Since(time.Unix(0, idle)) > hang {
						old = w
					}
				}
			}
			if old == nil {
				continue
			}
			if idle != 0 && time.Since(time.Unix(0, idle)) > hang {
				why = "an execution does not terminate (no progress for " + hang.String() + ")"
			} else {
				var ms runtime.MemStats
				runtime.ReadMemStats(&ms)
				if ms.HeapAlloc > memLimit && time.Since(time.Unix(0, since)) > 2*time.Second {
					why = fmt.Sprintf("an execution allocates without bound (%d MB)", ms.HeapAlloc>>20)
				}
			}
			if why != "" {
				buf := make([]byte, 1<<16)
				buf = buf[:runtime.Stack(buf, true)]
				c := old.cur.Load()
				r.violation(name, int(old.curSh.Load()), bound, append([]point(nil), c.trace...), why+"\n"+string(buf), "not re-run")
				r.Finish()
			}
		}
	}
	var ex, st int64
	for _, w := range ws {
		ex += w.Execs
		st += w.Steps
		for k, v := range w.outc {
			r.outcomes[name+": "+k] += v
		}
	}
	if !full.Load() {
		r.exhaustive = false
	}
	r.execs += ex
	r.steps += st
	r.explored = append(r.explored, map[string]any{"name": name, "shards": shards, "deviation_bound": bound,
		"executions": ex, "steps": st, "complete": full.Load(), "wall_s": round(time.Since(t0).Seconds())})
}

func round(f float64) float64 { return float64(int(f*100)) / 100 }

// Add lets a hand-written search (breadth-first) report its coverage.
func (r *Runner) Add(name string, states, transitions, traces int64, complete bool, extra map[string]any) {
	r.extraStates += states
	r.steps += transitions
	r.execs += traces
	if !complete {
		r.exhaustive = false
	}
	m := map[string]any{"name": name, "states": states, "steps": transitions, "executions": traces, "complete": complete}
	for k, v := range extra {
		m[k] = v
	}
	r.explored = append(r.explored, m)
}

func (r *Runner) Outcome(s string, n int64) { r.outcomes[s] += n }
func (r *Runner) Stopped() bool             { return r.stop.Load() }
func (r *Runner) Overdue() bool             { return time.Now().After(r.deadline) }

// Sample keeps a few written-out cases for the evidence file.
func (r *Runner) Sample(s any) {
	r.mu.Lock()
	if len(r.samples) < 8 {
		r.samples = append(r.samples, s)
	}
	r.mu.Unlock()
}

func (r *Runner) Note(format string, a ...any) { r.notes = append(r.notes, fmt.Sprintf(format, a...)) }

// Fail reports a violation found by a hand-written search.
func (r *Runner) Fail(name, msg string) {
	r.stop.Store(true)
	r.violation(name, 0, 0, nil, msg, "re-run the exploration")
}

func (r *Runner) violation(name string, shard, bound int, tr []point, msg, rep string) {
	r.mu.Lock()
	defer r.mu.Unlock()
	if r.vio != nil {
		return
	}
	r.vio = &Replay{Property: r.Property, Exploration: name, Tier: r.Tier, Shard: shard, Bound: bound,
		Script: encodeTrace(tr), Message: msg, Reproduced: rep,
		HowTo: "bash /verif/check.sh replay <this file>"}
}

// Finish writes the evidence file and exits.
func (r *Runner) Finish() {
	if r.Replay != nil {
		if r.vio != nil {
			fmt.Println(Printable(r.vio.Message))
			os.Exit(1)
		}
		os.Exit(0)
	}
	keys := make([]string, 0, len(r.outcomes))
	for k := range r.outcomes {
		keys = append(keys, k)
	}
	sort.Strings(keys)
	cov := map[string]any{
		"states":                        r.states.len() + r.extraStates,
		"transitions":                   r.steps,
		"traces_validated_against_impl": r.execs,
		"samples":                       r.samples,
		"exhaustive":                    r.exhaustive,
		"explorations":                  r.explored,
		"distinct_outcome_classes":      len(keys),
		"outcomes":                      r.outcomes,
		"meaning":                       "states: distinct model states (inputs, histories or schedules' outcomes) by canonical hash or by construction; transitions: implementation steps whose result was compared with the reference model; traces_validated_against_impl: complete executions of the real code",
	}
	if n := r.diverged.Load(); n > 0 {
		r.exhaustive = false
		r.Note("%d executions did not follow their script (the code under test is not deterministic)", n)
		cov["exhaustive"] = false
	}
	if r.states.len() >= setCap {
		r.Note("distinct states are counted up to %d only; exploration goes on beyond", setCap)
	}
	if len(r.notes) > 0 {
		cov["notes"] = r.notes
	}
	nv := 0
	if r.vio != nil {
		nv = 1
	}
	as := r.Assumptions
	if as == nil {
		as = []string{}
	}
	ev := map[string]any{"property": r.Property, "tier": r.Tier, "seed": r.Seed, "level": "model_checking",
		"coverage": cov, "assumptions": as, "wall_s": round(time.Since(r.start).Seconds()), "violations": nv}
	b, _ := json.MarshalIndent(ev, "", " ")
	dir := filepath.Join(r.OutDir, "evidence")
	os.MkdirAll(dir, 0o755)
	if err := os.WriteFile(filepath.Join(dir, r.Property+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	fmt.Printf("%s %s: states=%d transitions=%d executions=%d outcome_classes=%d exhaustive=%v wall=%.1fs\n", r.Property, r.Tier,
		r.states.len()+r.extraStates, r.steps, r.execs, len(keys), r.exhaustive, time.Since(r.start).Seconds())
	if r.vio != nil {
		p := filepath.Join(r.OutDir, "replays")
		os.MkdirAll(p, 0o755)
		p = filepath.Join(p, r.Property+".json")
		b, _ := json.MarshalIndent(r.vio, "", " ")
		os.WriteFile(p, append(b, '\n'), 0o644)
		fmt.Println(Printable(r.vio.Message))
		fmt.Printf("VIOLATION property=%s replay=%s\n", r.Property, p)
		os.Exit(1)
	}
	os.Exit(0)
}

// set of 64-bit hashes.
type set struct {
	sh [256]struct {
		mu sync.Mutex
		m  map[uint64]struct{}
	}
	n atomic.Int64
}

const setCap = 6 << 20

func (s *set) init() {
	for i := range s.sh {
		s.sh[i].m = map[uint64]struct{}{}
	}
}

func (s *set) add(h uint64) {
	if s.n.Load() >= setCap {
		return
	}
	b := &s.sh[h>>56]
	b.mu.Lock()
	if _, ok := b.m[h]; !ok {
		b.m[h] = struct{}{}
		s.n.Add(1)
	}
	b.mu.Unlock()
}

func (s *set) len() int64 { return s.n.Load() }

// Hash is FNV-1a with a final mix.
type Hash uint64

func NewHash() Hash { return 0xcbf29ce484222325 }
func (h Hash) Bytes(b []byte) Hash {
	for _, x := range b {
		h = (h ^ Hash(x)) * 0x100000001b3
	}
	return h ^ Hash(len(b))<<1
}
func (h Hash) Str(s string) Hash {
	for i := 0; i < len(s); i++ {
		h = (h ^ Hash(s[i])) * 0x100000001b3
	}
	return h ^ Hash(len(s))<<1
}
func (h Hash) U(x uint64) Hash {
	for i := 0; i < 8; i++ {
		h = (h ^ Hash(byte(x>>(8*i)))) * 0x100000001b3
	}
	return h
}
func (h Hash) Sum() uint64 {
	x := uint64(h)
	x ^= x >> 33
	x *= 0xff51afd7ed558ccd
	x ^= x >> 33
	x *= 0xc4ceb9fe1a85ec53
	x ^= x >> 33
	return x
}

// Printable replaces what is not text in a message.
func Printable(s string) string {
	return strings.Map(func(c rune) rune {
		if c == '\n' || c == '\t' || unicode.IsPrint(c) && c != unicode.ReplacementChar {
			return c
		}
		return '?'
	}, s)
}
