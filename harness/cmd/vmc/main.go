// vmc decides the properties of /verif/properties.jsonl that do not need a
// controlled scheduler, by exhaustive exploration of the real code.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"

	"verif/mc"
)

var checks = map[string]func(r *mc.Runner){}

func main() {
	prop := flag.String("property", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	out := flag.String("out", "/verif", "where evidence/ and replays/ go")
	seed := flag.Int("seed", 1, "recorded in the evidence; the exploration is not random")
	replay := flag.String("replay", "", "replay file")
	budget := flag.Duration("budget", 0, "stop exploring after this time")
	first := flag.String("first", "", "run only these calls (child of an exploration)")
	flag.Parse()
	if *first != "" {
		runFirst(*prop, *first)
		return
	}
	var rp *mc.Replay
	if *replay != "" {
		b, err := os.ReadFile(*replay)
		if err == nil {
			rp = &mc.Replay{}
			err = json.Unmarshal(b, rp)
		}
		if err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(3)
		}
		*prop, *tier = rp.Property, rp.Tier
	}
	f := checks[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "no check for", *prop)
		os.Exit(3)
	}
	if *budget == 0 {
		*budget = 400 * time.Second
		if *tier == "thorough" {
			*budget = 3 * time.Hour
		}
	}
	r := mc.NewRunner(*prop, *tier, *seed, *out, *budget)
	r.Abort = true
	r.Replay = rp
	f(r)
	r.Finish()
}
