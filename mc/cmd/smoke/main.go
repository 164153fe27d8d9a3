// Command smoke explores small versions of the spaces of many properties. It is used to try the checks against many
// small changes of the code, and is no check.
//
//	smoke SHRINK SECONDS PROPERTY...
//
// It prints the properties that are violated.
package main

import (
	"fmt"
	"os"
	"strconv"
	"time"

	"verif/mc/engine"
	"verif/mc/props"
	"verif/mc/spaces"
)

func main() {
	spaces.Base, _ = strconv.Atoi(os.Args[1])
	limit, _ := strconv.Atoi(os.Args[2])
	for _, id := range os.Args[3:] {
		start := time.Now()
		fmt.Printf("%s ", id)
		r := engine.Explore(props.All[id], "quick", time.Duration(limit)*time.Second, nil, nil, "")
		if len(r.Violations) > 0 {
			fmt.Printf("VIOLATED %s %q %q\n", r.Violations[0].Space, r.Violations[0].Parts, r.Violations[0].Msg)
			if os.Getenv("SMOKE_ALL") == "" {
				os.Exit(1)
			}
			continue
		}
		fmt.Printf("holds (%d states, %.1fs)\n", r.States, time.Since(start).Seconds())
	}
}
