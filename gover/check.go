package main

import (
	"encoding/json"
	"fmt"
	"os"
	"sort"
	"strings"
	"time"
)

type FailedOb struct {
	Function   string `json:"function"`
	Kind       string `json:"kind"`
	Obligation string `json:"obligation"`
	Clause     string `json:"clause,omitempty"`
	Path       string `json:"path,omitempty"`
	Status     string `json:"status"`
	Solver     string `json:"solver,omitempty"`
	Output     string `json:"output,omitempty"`
	Query      string `json:"query,omitempty"`
}

type FnResult struct {
	Function    string         `json:"function"`
	Where       string         `json:"where"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Kinds       map[string]int `json:"kinds"`
	Paths       int            `json:"paths"`
	Seconds     float64        `json:"seconds"`
	Inlined     []string       `json:"inlined,omitempty"`
	Uses        []string       `json:"uses_contracts_of,omitempty"`
	Bounded     string         `json:"bounded,omitempty"`
	Error       string         `json:"error,omitempty"`
	Dependency  bool           `json:"dependency,omitempty"`
}

type PropResult struct {
	Property    string         `json:"property"`
	Obligations int            `json:"obligations"`
	Discharged  int            `json:"discharged"`
	Bounded     int            `json:"bounded_obligations"`
	Functions   []*FnResult    `json:"functions"`
	Backends    map[string]int `json:"backends"`
	Failed      []FailedOb     `json:"failed"`
	Errors      []FailedOb     `json:"errors"`
	Trusted     []string       `json:"trusted"`
	Assumptions []string       `json:"assumptions"`
	SolverS     float64        `json:"solver_seconds"`
	SolverRuns  int64          `json:"solver_runs"`
	WallS       float64        `json:"wall_s"`
}

func has(xs []string, s string) bool {
	for _, x := range xs {
		if x == s {
			return true
		}
	}
	return false
}

// checkProp verifies the contracts of one property and, transitively, every
// non-extern contract their proofs rely on.
func (w *World) checkProp(prop, out string, short, long time.Duration, verbose bool) int {
	start := time.Now()
	res := &PropResult{Property: prop, Backends: map[string]int{}, Failed: []FailedOb{}, Errors: []FailedOb{}}
	trusted := map[string]bool{}
	assume := map[string]bool{}
	todo := []string{}
	seen := map[string]bool{}
	for _, k := range w.spec.order {
		c := w.spec.contracts[k]
		if !c.extern && has(c.props, prop) {
			todo = append(todo, k)
			seen[k] = true
		}
	}
	ndirect := len(todo)
	for i := 0; i < len(todo); i++ {
		c := w.spec.contracts[todo[i]]
		r := w.verify(c, short, long)
		fr := &FnResult{Function: c.key, Kinds: map[string]int{}, Seconds: r.dur.Seconds(), Dependency: i >= ndirect, Bounded: c.bounded}
		if fn := w.funcs[c.key]; fn != nil {
			fr.Where = w.pos(fn.Pos())
		}
		res.Functions = append(res.Functions, fr)
		if r.missing && internal(c.key) {
			fr.Error = "this internal function is not in this tree with the parameters of its contract; its callers are verified with whatever replaced it"
			continue
		}
		if r.err != nil {
			fr.Error = r.err.Error()
			res.Obligations++
			res.Errors = append(res.Errors, FailedOb{Function: c.key, Kind: "generation", Obligation: "obligations could not be generated: " + r.err.Error(), Status: "error"})
			if verbose {
				r.print(true, "")
			}
			continue
		}
		fr.Paths = r.x.npaths
		fr.Inlined = sortedKeys(r.x.inlined)
		fr.Uses = sortedKeys(r.x.used)
		for k := range r.x.trusted {
			trusted[k] = true
		}
		for k := range r.x.notesum {
			assume[k] = true
		}
		for _, t := range c.trusts {
			trusted[t] = true
		}
		for _, rq := range c.requires {
			assume["precondition of "+c.key+": "+rq.text] = true
		}
		for k := range r.x.used {
			if u := w.spec.contracts[k]; u != nil && !u.extern && !seen[k] {
				seen[k] = true
				todo = append(todo, k)
			}
		}
		for _, v := range r.vcs {
			// a clause that belongs to other properties only is theirs to report
			if len(v.props) > 0 && !has(v.props, prop) && i < ndirect {
				continue
			}
			fr.Obligations++
			fr.Kinds[v.kind]++
			res.Obligations++
			if c.bounded != "" {
				res.Bounded++
			}
			if v.res != nil && v.res.status == "unsat" {
				fr.Discharged++
				res.Discharged++
				res.Backends[v.res.backend]++
				continue
			}
			f := FailedOb{Function: c.key, Kind: v.kind, Obligation: v.name, Clause: v.text, Path: v.note}
			if v.res != nil {
				f.Status, f.Solver = v.res.status, v.res.backend
				f.Output = clip(v.res.out, 4000)
				f.Query = v.res.query
			}
			res.Failed = append(res.Failed, f)
		}
		if verbose {
			r.print(false, "")
		}
	}
	if ndirect == 0 {
		res.Errors = append(res.Errors, FailedOb{Function: "-", Kind: "generation", Obligation: "no contract is tagged with " + prop, Status: "error"})
	}
	res.Trusted = sortedKeys(trusted)
	res.Assumptions = sortedKeys(assume)
	res.SolverS = float64(solverTime.Load()) / 1e9
	res.SolverRuns = solverRuns.Load()
	res.WallS = time.Since(start).Seconds()
	b, _ := json.MarshalIndent(res, "", " ")
	if out != "" {
		os.WriteFile(out, b, 0644)
	} else {
		sort.Slice(res.Failed, func(i, j int) bool { return res.Failed[i].Function < res.Failed[j].Function })
		fmt.Printf("%s: %d/%d obligations, %d functions, %.1fs\n", prop, res.Discharged, res.Obligations, len(res.Functions), res.WallS)
	}
	if len(res.Failed)+len(res.Errors) > 0 {
		return 1
	}
	return 0
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + " ..."
	}
	return strings.TrimSpace(s)
}
