package main

import (
	"flag"
	"fmt"
	"os"
	"regexp"
	"strconv"
	"time"
)

func main() {
	vdir := flag.String("verif", "/verif", "")
	repo := flag.String("repo", "/repo", "")
	only := flag.String("run", "", "regexp of contract names")
	limit := flag.Duration("limit", 120*time.Second, "time limit per contract")
	dump := flag.String("dump", "", "directory for failed queries")
	verbose := flag.Bool("v", false, "")
	prop := flag.String("check", "", "property to check (driver mode)")
	tier := flag.String("tier", "quick", "quick or thorough")
	flag.Parse()
	if *prop != "" {
		seed, _ := strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
		os.Exit(Check(*vdir, *repo, *prop, *tier, seed))
	}
	t0 := time.Now()
	ld, err := Load(*vdir, *repo)
	if err != nil {
		fmt.Println("LOAD ERROR:", err)
		os.Exit(3)
	}
	fmt.Println("loaded", len(ld.Contracts), "contracts in", time.Since(t0))
	for _, n := range ld.Notes {
		fmt.Println("NOTE:", n)
	}
	re := regexp.MustCompile(*only)
	for _, c := range ld.Contracts {
		if !re.MatchString(c.Name) || c.Bounded {
			continue
		}
		r := Verify(ld, c, *limit, *dump)
		v, why := r.Verdict()
		fmt.Printf("%-40s %-10s vcs %d/%d paths %d obs %d queries %v time %v\n", c.Name, v, r.VCDischarged, r.VCs, r.Paths, len(r.Obs), r.Queries, r.Wall.Round(time.Millisecond))
		for _, w := range why {
			fmt.Println("    ", w)
		}
		if *verbose {
			for _, k := range r.ObOrder {
				o := r.Obs[k]
				if o.Status != "discharged" {
					fmt.Println("    OB", o.Kind, o.Name, o.Status, o.Detail)
					for _, p := range o.Path {
						fmt.Println("         ", p)
					}
				}
			}
			for _, l := range joinSorted(r.Loops) {
				fmt.Println("    LOOP", l)
			}
			for _, l := range joinSorted(r.Assumptions) {
				fmt.Println("    ASSUME", l)
			}
			for _, l := range joinSorted(r.Externals) {
				fmt.Println("    EXTERNAL", l)
			}
		}
	}
}
