// Command mc decides the properties in /verif/properties.jsonl by bounded
// exhaustive exploration of the real code.
package main

import (
	"fmt"
	"os"
	"sort"

	"verifmc/checks"
	"verifmc/core"
	"verifmc/instr"
)

func main() {
	a := os.Args[1:]
	if len(a) == 0 {
		usage()
	}
	switch a[0] {
	case "check": // check ID [tier] [space]
		tier := os.Getenv("VERIF_TIER")
		if len(a) > 2 && a[2] != "" {
			tier = a[2]
		}
		if tier != "thorough" {
			tier = "quick"
		}
		only := ""
		if len(a) > 3 {
			only = a[3]
		}
		if len(a) < 2 {
			usage()
		}
		os.Exit(core.Supervise(a[1], tier, only))
	case "worker":
		core.Worker(core.Props[a[1]], a[2], a[3], a[4], a[5])
	case "one":
		os.Exit(core.One(a[1], a[2], a[3], a[4]))
	case "replay":
		os.Exit(core.Replay(a[1]))
	case "serve":
		os.Exit(checks.Serve())
	case "fresh": // fresh STEP
		os.Exit(checks.Fresh(a[1]))
	case "report": // report CASE
		checks.Report(a[1])
	case "instrument": // instrument DIR
		if err := instr.Overlay(a[1]); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(1)
		}
	case "list":
		var ids []string
		for id := range core.Props {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			fmt.Println(id)
		}
	default:
		usage()
	}
}

func usage() {
	fmt.Fprintln(os.Stderr, "usage: mc check ID [quick|thorough] [space] | replay FILE | list")
	os.Exit(2)
}
