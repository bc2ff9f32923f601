// Command mc runs the checks.
//
//	mc supervise ID TIER     run a check: shard over worker processes, confirm
//	                         violations, write evidence
//	mc worker ...            one shard (internal)
//	mc replay FILE           run the case of a violation file again
package main

import (
	"fmt"
	"os"

	"verif.local/mc/h"
	"verif.local/mc/props"
	"verif.local/mc/sup"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: mc supervise ID TIER | mc replay FILE | mc list")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "supervise":
		os.Exit(sup.Supervise(os.Args[2], os.Args[3], props.Table()))
	case "worker":
		sup.Worker(os.Args[2:], func(id string) func(*h.Ctx) { return props.Table()[id].Body })
	case "replay":
		os.Exit(sup.Replay(os.Args[2], props.Table()))
	case "child":
		props.Child(os.Args[2:])
	case "list":
		for id := range props.Table() {
			fmt.Println(id)
		}
	}
}
