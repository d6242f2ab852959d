// Command harness decides the properties in /verif/properties.jsonl for the
// implementation by bounded exhaustive exploration.
package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"

	"verif/checks"
	"verif/core"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Fprintln(os.Stderr, "usage: harness run|child -id ID -dir DIR -scratch DIR [-tier quick|thorough] [-seed N] [-replay FILE]")
		os.Exit(2)
	}
	if os.Args[1] == "aux" {
		os.Exit(checks.AuxMain(os.Args[2:]))
	}
	fs := flag.NewFlagSet("harness", flag.ExitOnError)
	id := fs.String("id", "", "")
	dir := fs.String("dir", "/verif", "")
	scratch := fs.String("scratch", "", "")
	tier := fs.String("tier", "quick", "")
	seed := fs.Int64("seed", 1, "")
	replay := fs.String("replay", "", "")
	fs.Parse(os.Args[2:])
	c := checks.All[*id]
	if c == nil {
		fmt.Fprintf(os.Stderr, "no check %q\n", *id)
		os.Exit(2)
	}
	budget := 420 * time.Second
	if *tier == "thorough" {
		budget = 750 * time.Second
	}
	if os.Args[1] == "child" {
		var rc *core.CaseID
		if *replay != "" {
			b, err := os.ReadFile(*replay)
			if err == nil {
				rc = &core.CaseID{}
				err = json.Unmarshal(b, rc)
			}
			if err != nil {
				fmt.Fprintln(os.Stderr, err)
				os.Exit(2)
			}
		}
		os.Exit(core.Child(c, *dir, *scratch, *tier, *seed, rc, budget))
	}
	os.Exit(core.Supervise(*id, *dir, *scratch, os.Args[2:], budget+60*time.Second))
}
