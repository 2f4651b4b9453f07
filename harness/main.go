// Command gmch is the model-checking harness: the rewritten implementation,
// closed drivers (scenarios) and the master/worker exploration.
package main

import (
	"flag"
	"fmt"
	"os"
	"strconv"
	"time"

	"gmc/mc"
)

func main() {
	if len(os.Args) < 2 {
		fmt.Println("usage: gmch worker|replay|check|list ...")
		os.Exit(2)
	}
	switch os.Args[1] {
	case "worker":
		mc.WorkerMain(os.Args[2])
	case "replay":
		if os.Args[2] == "-json" {
			mc.ReplayMain(os.Args[3], false)
		} else {
			mc.ReplayMain(os.Args[2], true)
		}
	case "list":
		for _, n := range mc.ScenarioNames() {
			fmt.Println(n, "-", mc.Lookup(n).Doc)
		}
	case "check":
		fs := flag.NewFlagSet("check", flag.ExitOnError)
		tier := fs.String("tier", "quick", "")
		out := fs.String("evidence", "/verif/evidence", "")
		rep := fs.String("replays", "/tmp", "")
		known := fs.String("known", "", "")
		budget := fs.Int("budget", 0, "seconds")
		workers := fs.Int("workers", 8, "")
		only := fs.String("only", "", "")
		bound := fs.Int("bound", -1, "")
		v := fs.Bool("v", false, "")
		noev := fs.Bool("noevidence", false, "")
		fs.Parse(os.Args[3:])
		seed, _ := strconv.Atoi(os.Getenv("VERIF_SEED"))
		os.Exit(mc.MasterMain(os.Args[2], mc.MasterConfig{Tier: *tier, Seed: seed, Workers: *workers, OutDir: *out, Replays: *rep, Known: *known,
			Budget: time.Duration(*budget) * time.Second, Only: *only, MaxBound: *bound, Verbose: *v, NoEvid: *noev}))
	}
}
