// conc decides the concurrency properties: it runs the real code, instrumented
// by cmd/instr, under the scheduler of verif/vsched and explores all schedules
// within a preemption bound; built with -race it also checks that conflicting
// accesses are ordered in every one of them.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"slices"
	"sort"
	"strings"
	"time"

	"verif/mc"
	"verif/vsched"
)

var checks = map[string]func(r *mc.Runner, x *env){}

type env struct {
	shard, shards int
	capture       string // file that standard output goes to (C24)
	racelog       string
}

// mine selects this child's part of n scenarios.
func (x *env) mine(n int) (out []int) {
	for i := x.shard; i < n; i += x.shards {
		out = append(out, i)
	}
	return
}

func (x *env) raceReport() string {
	fs, _ := filepath.Glob(x.racelog + ".*")
	s := ""
	for _, f := range fs {
		b, _ := os.ReadFile(f)
		s += string(b)
	}
	if len(s) > 6000 {
		s = s[:6000] + "..."
	}
	return s
}

func main() {
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("out", "/verif", "where evidence/ and replays/ go")
	seed := flag.Int("seed", 1, "recorded in the evidence; the exploration is not random")
	replay := flag.String("replay", "", "replay file")
	budget := flag.Duration("budget", 0, "stop exploring after this time")
	tmp := flag.String("tmp", "", "scratch directory")
	shard := flag.Int("shard", -1, "run as child")
	shards := flag.Int("shards", 8, "number of children")
	notes := flag.String("note", "", "note for the evidence; exploration is then not called exhaustive")
	flag.Parse()
	if *budget == 0 {
		*budget = 200 * time.Second
		if *tier == "thorough" {
			*budget = 2 * time.Hour
		}
	}
	if *shard < 0 {
		parent(*prop, *tier, *out, *seed, *replay, *budget, *tmp, *shards, *notes)
		return
	}
	var rp *mc.Replay
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err == nil {
			rp = &mc.Replay{}
			err = json.Unmarshal(b, rp)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		*prop, *tier = rp.Property, rp.Tier
	}
	f := checks[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no check for", *prop)
		os.Exit(3)
	}
	r := mc.NewRunner(*prop, *tier, *seed, *tmp, *budget)
	r.Replay = rp
	r.Lax = true
	x := &env{shard: *shard, shards: *shards, capture: os.Getenv("VERIF_CAPTURE"), racelog: filepath.Join(*tmp, "race")}
	f(r, x)
	r.Finish()
}

// parent splits the scenarios over child processes and merges their evidence.
func parent(prop, tier, out string, seed int, replay string, budget time.Duration, tmp string, n int, note string) {
	start := time.Now()
	own := tmp == ""
	if own {
		tmp, _ = os.MkdirTemp("", "conc")
		defer os.RemoveAll(tmp)
	}
	type res struct {
		err error
		out string
	}
	if replay != "" {
		n = 1
		b, _ := os.ReadFile(replay)
		var rp mc.Replay
		json.Unmarshal(b, &rp)
		prop, tier = rp.Property, rp.Tier
	}
	rs := make([]chan res, n)
	for i := range rs {
		i := i
		rs[i] = make(chan res, 1)
		dir := filepath.Join(tmp, fmt.Sprint(i))
		os.MkdirAll(dir, 0o755)
		go func() {
			args := []string{"-property", prop, "-tier", tier, "-seed", fmt.Sprint(seed), "-tmp", dir, "-shard", fmt.Sprint(i), "-shards", fmt.Sprint(n), "-budget", budget.String()}
			if replay != "" {
				args = append(args, "-replay", replay)
			}
			cmd := exec.Command(os.Args[0], args...)
			cap := filepath.Join(dir, "stdout")
			so, _ := os.OpenFile(cap, os.O_CREATE|os.O_RDWR|os.O_APPEND, 0o644)
			se, _ := os.Create(filepath.Join(dir, "stderr"))
			cmd.Stdout, cmd.Stderr = so, se
			cmd.Env = append(os.Environ(), "VERIF_CAPTURE="+cap, "GORACE=log_path="+filepath.Join(dir, "race")+" exitcode=0 atexit_sleep_ms=0", "GOMAXPROCS=2", "GOMEMLIMIT=3GiB")
			err := cmd.Run()
			so.Close()
			se.Close()
			b, _ := os.ReadFile(filepath.Join(dir, "stderr"))
			rs[i] <- res{err, string(b)}
		}()
	}
	tot := map[string]any{}
	num := map[string]float64{}
	exhaustive := note == ""
	outcomes := map[string]float64{}
	var expl []any
	var samples []any
	notes := []any{}
	if note != "" {
		notes = append(notes, note)
	}
	var assumptions any
	vio, msg := "", ""
	for i := range rs {
		x := <-rs[i]
		dir := filepath.Join(tmp, fmt.Sprint(i))
		if replay != "" {
			b, _ := os.ReadFile(filepath.Join(dir, "stdout"))
			if prop == "C24" && len(b) > 4000 {
				b = b[len(b)-4000:]
			}
			os.Stdout.Write(b)
			fmt.Print(mc.Printable(x.out))
			if x.err != nil {
				os.Exit(1)
			}
			os.Exit(0)
		}
		b, err := os.ReadFile(filepath.Join(dir, "evidence", prop+".json"))
		if err != nil { // the child died
			if v := crash(x.out); v != "" && vio == "" {
				p := filepath.Join(out, "replays")
				os.MkdirAll(p, 0o755)
				p = filepath.Join(p, prop+".txt")
				os.WriteFile(p, []byte(x.out), 0o644)
				vio, msg = p, v
				continue
			}
			exhaustive = false
			notes = append(notes, fmt.Sprintf("child %d gave no result: %v %s", i, x.err, tail(x.out, 2000)))
			fmt.Fprintf(os.Stderr, "child %d gave no result: %v\n%s\n", i, x.err, tail(x.out, 4000))
			continue
		}
		var ev map[string]any
		json.Unmarshal(b, &ev)
		assumptions = ev["assumptions"]
		cov := ev["coverage"].(map[string]any)
		for _, k := range []string{"states", "transitions", "traces_validated_against_impl"} {
			if f, ok := cov[k].(float64); ok {
				num[k] += f
			}
		}
		if e, _ := cov["exhaustive"].(bool); !e {
			exhaustive = false
		}
		if o, ok := cov["outcomes"].(map[string]any); ok {
			for k, v := range o {
				outcomes[k] += v.(float64)
			}
		}
		if e, ok := cov["explorations"].([]any); ok {
			expl = append(expl, e...)
		}
		if s, ok := cov["samples"].([]any); ok && len(samples) < 8 {
			samples = append(samples, s...)
		}
		if s, ok := cov["notes"].([]any); ok {
			for _, n := range s {
				if !slices.Contains(notes, n) {
					notes = append(notes, n)
				}
			}
		}
		if b, err := os.ReadFile(filepath.Join(dir, "replays", prop+".json")); err == nil && vio == "" {
			p := filepath.Join(out, "replays")
			os.MkdirAll(p, 0o755)
			p = filepath.Join(p, prop+".json")
			os.WriteFile(p, b, 0o644)
			var rp mc.Replay
			json.Unmarshal(b, &rp)
			vio, msg = p, rp.Message
		}
	}
	cov := map[string]any{"exhaustive": exhaustive, "outcomes": outcomes, "distinct_outcome_classes": len(outcomes), "explorations": merge(expl), "samples": samples, "race_detector": vsched.RaceBuild,
		"meaning": "states: distinct (scenario, outcome) pairs; transitions: scheduling points executed; traces_validated_against_impl: complete schedules of the real code, each compared with the sequential model"}
	for k, v := range num {
		cov[k] = int64(v)
	}
	if len(notes) > 0 {
		cov["notes"] = notes
	}
	nv := 0
	if vio != "" {
		nv = 1
	}
	if assumptions == nil {
		assumptions = []string{}
	}
	tot = map[string]any{"property": prop, "tier": tier, "seed": seed, "level": "model_checking", "coverage": cov, "assumptions": assumptions,
		"wall_s": float64(int(time.Since(start).Seconds()*100)) / 100, "violations": nv}
	b, _ := json.MarshalIndent(tot, "", " ")
	os.MkdirAll(filepath.Join(out, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(out, "evidence", prop+".json"), append(b, '\n'), 0o644); err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(3)
	}
	fmt.Printf("%s %s: states=%d points=%d schedules=%d exhaustive=%v race=%v wall=%.1fs\n", prop, tier, int64(num["states"]), int64(num["transitions"]), int64(num["traces_validated_against_impl"]),
		exhaustive, vsched.RaceBuild, time.Since(start).Seconds())
	if vio != "" {
		fmt.Println(mc.Printable(msg))
		fmt.Printf("VIOLATION property=%s replay=%s\n", prop, vio)
		if own {
			os.RemoveAll(tmp)
		}
		os.Exit(1)
	}
}

func tail(s string, n int) string {
	if len(s) > n {
		return s[len(s)-n:]
	}
	return s
}

// crash recognises a fatal error that the code under test caused.
func crash(s string) string {
	for _, k := range []string{"fatal error: concurrent map", "fatal error: stack overflow", "fatal error: sync:", "goroutine stack exceeds", "fatal error: all goroutines are asleep", "fatal error: fault", "unexpected signal"} {
		if i := strings.Index(s, k); i >= 0 && strings.Contains(s, "alexispb/mygosnmp") {
			return s[i:min(len(s), i+4000)]
		}
	}
	return ""
}

func merge(e []any) []any {
	var out []any
	at := map[string]map[string]any{}
	for _, x := range e {
		m := x.(map[string]any)
		k := fmt.Sprint(m["name"])
		o := at[k]
		if o == nil {
			at[k] = m
			out = append(out, m)
			continue
		}
		for _, f := range []string{"executions", "steps", "shards", "states"} {
			a, _ := o[f].(float64)
			b, _ := m[f].(float64)
			o[f] = a + b
		}
		a, _ := o["complete"].(bool)
		b, _ := m["complete"].(bool)
		o["complete"] = a && b
		w1, _ := o["wall_s"].(float64)
		w2, _ := m["wall_s"].(float64)
		o["wall_s"] = max(w1, w2)
	}
	return out
}

// schedule runs one execution of the threads and reports what no scenario may
// show: a data race, a deadlock, an unexpected panic.
func (x *env) schedule(c *mc.Ctx, threads ...func()) string {
	races := vsched.Races()
	s, errs := vsched.Run(c, threads...)
	c.W.Step(s.Points)
	if s.Deadlock != "" {
		return s.Deadlock
	}
	if s.Horizon {
		c.W.Outcome("spinning thread was made to yield")
	}
	for i, e := range errs {
		if e != "" {
			return fmt.Sprintf("thread %d panicked: %s", i, e)
		}
	}
	if n := vsched.Races(); n > races {
		return fmt.Sprintf("data race between the threads (race detector):\n%s", x.raceReport())
	}
	return ""
}

// points counts the scheduling points of the threads when run to completion,
// all by the same goroutine: a race reported here would not be reported again.
func points(threads ...func()) int {
	s, _ := vsched.Run(first{}, func() {
		for _, f := range threads {
			func() {
				defer func() { recover() }()
				f()
			}()
		}
	})
	return s.Points
}

type first struct{}

func (first) Pick(int) int { return 0 }
func (first) Dev(int) int  { return 0 }

// bounded explores scenarios grouped by a preemption bound chosen from their
// number of scheduling points.
func bounded(r *mc.Runner, x *env, name string, n int, threads func(i int) []func(), limits []int, body func(i int, c *mc.Ctx) string) {
	groups := map[int][]int{}
	if r.Replay == nil {
		// every child computes the same split of the work
		type item struct {
			i, b int
			cost float64
		}
		var all []item
		for i := 0; i < n; i++ {
			p := points(threads(i)...)
			b := 1
			for k, l := range limits {
				if p <= l {
					b = len(limits) + 1 - k
					break
				}
			}
			cost := float64(p) + 50
			for k := 0; k < b; k++ {
				cost *= float64(p) / float64(k+1)
			}
			all = append(all, item{i, b, cost})
		}
		sort.SliceStable(all, func(i, j int) bool { return all[i].cost > all[j].cost })
		load := make([]float64, x.shards)
		for _, it := range all {
			k := 0
			for j := range load {
				if load[j] < load[k] {
					k = j
				}
			}
			load[k] += it.cost
			if k == x.shard {
				groups[it.b] = append(groups[it.b], it.i)
			}
		}
	}
	for b := len(limits) + 1; b >= 1; b-- {
		g := groups[b]
		nm := fmt.Sprintf("%s, %d preemptions", name, b)
		if r.Replay != nil { // shard is the scenario itself
			r.Explore1(nm, n, b, body)
			continue
		}
		if len(g) == 0 {
			continue
		}
		r.ExploreOf(nm, g, b, body)
	}
}
