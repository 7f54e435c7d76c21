// gocv is a contract-based deductive verifier for pargo.
package main

import (
	"flag"
	"fmt"
	"os"
	"runtime"
	"sort"
	"strings"
	"sync"
	"time"
)

var debugMode = os.Getenv("GOCV_DEBUG") != ""

func main() {
	repo := flag.String("repo", "/repo", "repository")
	contracts := flag.String("contracts", "/verif/contracts", "contract directory")
	prop := flag.String("prop", "", "property (default: all)")
	unit := flag.String("unit", "", "only units with this prefix")
	verbose := flag.Bool("v", false, "print every obligation")
	jobs := flag.Int("j", runtime.NumCPU(), "parallel units")
	out := flag.String("json", "", "write the report here")
	flag.BoolVar(&thorough, "thorough", false, "let a second solver confirm every proof")
	flag.Parse()
	p, err := Load(*repo)
	if err != nil {
		fmt.Fprintln(os.Stderr, "LOAD-ERROR", err)
		os.Exit(3)
	}
	if err := p.LoadContracts(*contracts); err != nil {
		fmt.Fprintln(os.Stderr, "CONTRACT-ERROR", err)
		os.Exit(3)
	}
	t0 := time.Now()
	var ds []*UnitDef
	for _, d := range allUnits(p) {
		if *unit != "" && !strings.HasPrefix(d.Name, *unit) {
			continue
		}
		if *prop != "" && !contains(d.Tags, *prop) {
			continue
		}
		ds = append(ds, d)
	}
	sort.Slice(ds, func(i, j int) bool { return ds[i].Name < ds[j].Name })
	res := make([]*UnitResult, len(ds))
	var wg sync.WaitGroup
	sem := make(chan bool, *jobs)
	for i, d := range ds {
		wg.Add(1)
		sem <- true
		go func(i int, d *UnitDef) {
			defer wg.Done()
			defer func() { <-sem }()
			res[i] = runUnit(p, d)
		}(i, d)
	}
	wg.Wait()
	rep := report(res, *prop, time.Since(t0))
	rep.print(*verbose)
	if *out != "" {
		rep.write(*out)
	}
	if len(rep.Failed) > 0 {
		os.Exit(1)
	}
}

func allUnits(p *Program) []*UnitDef {
	ds := append(forkjoinUnits(p), wrapUnit(p))
	ds = append(ds, syncUnits(p)...)
	ds = append(ds, sortUnits(p)...)
	return append(ds, pipelineUnits(p)...)
}

func contains(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}
