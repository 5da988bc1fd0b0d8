// Command vh runs the monitors of one property against the library it was
// linked with.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"time"

	"verif/harness/gen"
	"verif/harness/mon"
	"verif/harness/props"
)

func main() {
	prop := flag.String("prop", "", "property id")
	tier := flag.String("tier", "quick", "quick or thorough")
	variant := flag.String("variant", "plain", "build variant, for the record")
	seed := flag.Uint64("seed", 1, "seed of every random choice")
	out := flag.String("out", "", "result file")
	section := flag.String("section", "", "replay: only this section")
	index := flag.Int("index", -1, "replay: only this case")
	repo := flag.String("repo", "/repo", "source tree for the literal dictionary")
	workers := flag.Int("workers", 0, "worker goroutines")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if *list {
		var ids []string
		for id := range props.All {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
		return
	}
	f := props.All[*prop]
	if f == nil {
		fmt.Fprintln(os.Stderr, "unknown property", *prop)
		os.Exit(2)
	}
	debug.SetGCPercent(200)
	debug.SetMemoryLimit(20 << 30)
	run := mon.New(*prop, *tier, *variant, *seed)
	run.OutFile = *out
	run.OnlySection, run.OnlyIndex = *section, *index
	if *workers > 0 {
		run.Workers = *workers
	}
	if !props.NoDict[*prop] {
		gen.TheDict = gen.LoadDict(*repo)
	}
	run.Watchdog(90 * time.Second)
	f(run)
	run.Finish()
}
