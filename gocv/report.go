package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"time"
)

type failure struct {
	Unit   string   `json:"unit"`
	Label  string   `json:"obligation"`
	Pos    string   `json:"position"`
	Detail string   `json:"detail"`
	Tags   []string `json:"properties"`
	Undec  bool     `json:"untranslatable,omitempty"`
}

type Report struct {
	Prop       string             `json:"property"`
	Units      int                `json:"units"`
	Functions  []string           `json:"functions_under_contract"`
	Total      int                `json:"obligations"`
	Discharged int                `json:"discharged"`
	By         map[string]int     `json:"discharged_by"`
	Queries    map[string]int     `json:"solver_queries"`
	SolverTime map[string]float64 `json:"solver_seconds"`
	Labels     map[string]int     `json:"obligations_by_name"`
	Wall       float64            `json:"wall_seconds"`
	Paths      int                `json:"blocks_executed"`
	Failed     []failure          `json:"failed"`
	UnitTimes  map[string]float64 `json:"unit_seconds"`
	Cross      *Cross             `json:"second_solver,omitempty"`
	res        []*UnitResult
}

func report(res []*UnitResult, prop string, wall time.Duration) *Report {
	r := &Report{Prop: prop, Units: len(res), By: map[string]int{}, Labels: map[string]int{}, Wall: wall.Seconds(),
		Queries: map[string]int{}, SolverTime: map[string]float64{}, UnitTimes: map[string]float64{}, res: res, Failed: []failure{}}
	fns := map[string]bool{}
	for _, u := range res {
		r.Paths += u.Paths
		r.UnitTimes[u.Unit] = u.Time.Seconds()
		for _, v := range u.Verified {
			fns[v] = true
		}
		if u.Err != "" {
			r.Total++
			r.Failed = append(r.Failed, failure{Unit: u.Unit, Label: "translation", Detail: u.Err, Tags: u.Tags, Undec: true})
		}
		for _, o := range u.Obls {
			if prop != "" && !contains(o.Tags, prop) {
				continue
			}
			r.Total++
			r.Labels[o.Label]++
			if o.Ok {
				r.Discharged++
				r.By[o.By]++
			} else {
				r.Failed = append(r.Failed, failure{Unit: o.Unit, Label: o.Label, Pos: o.Pos, Detail: o.Detail, Tags: o.Tags, Undec: o.Undec})
			}
		}
	}
	for f := range fns {
		r.Functions = append(r.Functions, f)
	}
	sort.Strings(r.Functions)
	stats.mu.Lock()
	for k, v := range stats.Queries {
		r.Queries[k] = v
	}
	for k, v := range stats.Time {
		r.SolverTime[k] = v.Seconds()
	}
	stats.mu.Unlock()
	if thorough {
		r.Cross = cross
		for _, d := range cross.Disagree {
			r.Failed = append(r.Failed, failure{Unit: "(cross-check)", Label: "second-solver-disagrees", Detail: d, Tags: []string{prop}})
		}
	}
	return r
}

func (r *Report) print(verbose bool) {
	if verbose {
		for _, u := range r.res {
			fmt.Printf("== %s  %.2fs  %d blocks  err=%q\n", u.Unit, u.Time.Seconds(), u.Paths, u.Err)
			for _, o := range u.Obls {
				fmt.Printf("   ok=%v %-40s %v %s %s %s\n", o.Ok, o.Label, o.Tags, o.Pos, o.By, o.Detail)
			}
		}
	}
	for _, f := range r.Failed {
		fmt.Printf("FAILED %s: %s at %s %v: %s\n", f.Unit, f.Label, f.Pos, f.Tags, f.Detail)
	}
	fmt.Printf("units %d, functions under contract %d, obligations %d, discharged %d, failed %d, %.1fs\n", r.Units, len(r.Functions), r.Total, r.Discharged, len(r.Failed), r.Wall)
}

func (r *Report) write(file string) {
	b, _ := json.MarshalIndent(r, "", " ")
	os.WriteFile(file, append(b, '\n'), 0o644)
}
