// qv runs the runtime monitors of one property.
package main

import (
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"strings"

	"verif/harness/core"
	_ "verif/harness/props"
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	seed := flag.Uint64("seed", 1, "seed")
	child := flag.Bool("child", false, "")
	shard := flag.Int("shard", 0, "")
	nshards := flag.Int("nshards", 8, "number of child processes")
	root := flag.String("root", "/verif", "")
	only := flag.String("only", "", "run one family only")
	one := flag.String("one", "", "family:index of a single case to run")
	mode := flag.String("mode", "", "mode of the single case")
	self := flag.String("self", "", "binary to run the shards with")
	replay := flag.String("replay", "", "replay file")
	flag.Parse()

	_, known, err := core.LoadKnown(filepath.Join(*root, "known_findings.json"))
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *replay != "" {
		os.Exit(core.Replay(*replay, known))
	}
	p := core.Get(*prop)
	if p == nil {
		fmt.Println("unknown property", *prop)
		os.Exit(2)
	}
	if *one != "" {
		var idx int
		fam, n, _ := strings.Cut(*one, ":")
		fmt.Sscan(n, &idx)
		os.Exit(core.RunOne(p, fam, idx, *tier, *seed, *mode, known))
	}
	if *child {
		os.Exit(core.RunChild(p, *tier, *seed, *shard, *nshards, known, *only))
	}
	os.Exit(core.RunParent(p, core.Options{Root: *root, Tier: *tier, Seed: *seed, Shards: *nshards, Only: *only, Self: *self}))
}
