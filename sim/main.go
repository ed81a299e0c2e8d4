// Command sim runs the checks.
package main

import (
	"flag"
	"fmt"
	"os"
	"strings"
	"time"

	"verifsim/drv"
	_ "verifsim/tool"
	_ "verifsim/world"
)

func main() {
	if s := os.Getenv("VERIF_SPEC"); s != "" {
		if err := drv.WorkerMain(s); err != nil {
			fmt.Fprintln(os.Stderr, err)
			os.Exit(2)
		}
		return
	}
	var cfg drv.Config
	flag.StringVar(&cfg.Prop, "prop", "", "property")
	flag.StringVar(&cfg.Tier, "tier", "quick", "quick or thorough")
	flag.Int64Var(&cfg.Seed, "seed", 1, "seed")
	flag.StringVar(&cfg.WorkerBin, "worker", os.Args[0], "worker program")
	args := flag.String("workerargs", "", "arguments of the worker program")
	flag.StringVar(&cfg.Scratch, "scratch", "", "scratch directory")
	flag.StringVar(&cfg.Verif, "verif", "/verif", "root of the framework")
	flag.StringVar(&cfg.Sites, "sites", "", "list of instrumented statements")
	flag.StringVar(&cfg.Replay, "replay", "", "replay file")
	flag.IntVar(&cfg.Runs, "runs", 0, "number of runs")
	flag.DurationVar(&cfg.WallCap, "wall", 5*time.Minute, "no new runs after this time")
	list := flag.Bool("list", false, "list properties")
	flag.Parse()
	if *list {
		fmt.Println(strings.Join(drv.IDs(), " "))
		return
	}
	if *args != "" {
		cfg.WorkerArg = strings.Fields(*args)
	}
	os.Exit(drv.Main(cfg))
}
