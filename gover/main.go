package main

import (
	"flag"
	"fmt"
	"os"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

type FnReport struct {
	key     string
	err     error
	vcs     []*VC
	x       *Exec
	dur     time.Duration
	missing bool
}

func main() {
	repo := flag.String("repo", "/repo", "repository")
	specs := flag.String("specs", "/verif/contracts", "contract directory")
	only := flag.String("f", "", "only contracts whose key contains this")
	verbose := flag.Bool("v", false, "verbose")
	short := flag.Duration("short", 3*time.Second, "")
	long := flag.Duration("long", 20*time.Second, "")
	dump := flag.String("dump", "", "dump failing queries to this directory")
	prop := flag.String("prop", "", "check one property: its contracts and every contract they rely on")
	out := flag.String("out", "", "with -prop: write the result as JSON here")
	budget := flag.Duration("budget", 8*time.Minute, "with -prop: after this long no new solver attempt gets the long limit")
	flag.Parse()
	deadline = time.Now().Add(*budget)
	sp, err := loadSpecs(*specs)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	w, err := loadWorld(*repo, sp)
	if err != nil {
		fmt.Fprintln(os.Stderr, err)
		os.Exit(2)
	}
	if *prop != "" {
		os.Exit(w.checkProp(*prop, *out, *short, *long, *verbose))
	}
	bad := 0
	for _, k := range sp.order {
		c := sp.contracts[k]
		if c.extern || !strings.Contains(k, *only) {
			continue
		}
		r := w.verify(c, *short, *long)
		bad += r.print(*verbose, *dump)
	}
	if bad > 0 {
		os.Exit(1)
	}
}

// verify checks one function against its contract.  Loop invariants are first
// sought for a loop however it is reached; if obligations are left over and
// some loop is reached in several ways, they are sought for each way on its own.
func (w *World) verify(c *Contract, short, long time.Duration) *FnReport {
	start := time.Now()
	r := w.verifyOnce(c, short, long, false)
	if r.err == nil && r.x.multiEntry && len(r.failures()) > 0 && time.Since(start) < 3*time.Minute && time.Now().Before(deadline) {
		if r2 := w.verifyOnce(c, short, long, true); r2.err == nil && len(r2.failures()) <= len(r.failures()) {
			r2.dur = time.Since(start)
			return r2
		}
	}
	return r
}

func (w *World) verifyOnce(c *Contract, short, long time.Duration, perPath bool) *FnReport {
	start := time.Now()
	r := &FnReport{key: c.key}
	fn := w.funcs[c.key]
	if fn == nil || len(fn.Blocks) == 0 || internal(c.key) && len(fn.Params) != len(c.params) {
		r.missing = true
		r.err = fmt.Errorf("function %s not found", c.key)
		return r
	}
	x := newExec(w, c, fn)
	x.perPath = perPath
	r.x = x
	if err := x.build(); err != nil {
		r.err = err
		return r
	}
	// First pass: every candidate and obligation gets one quick attempt.  The
	// surviving invariants are inductive on their own, so what is proved from
	// them stays proved; only if something is left over does a second pass
	// revive the dead contract invariants and spend the full portfolio.
	quick := min(short, time.Second)
	x.houdini(0, quick, long)
	r.discharge(x, 0, quick, long)
	if n := len(r.failures()); n > 0 && n <= 40 && r.terminates(x) {
		// what the surviving invariants prove, given time
		r.discharge(x, 1, short, min(long, 10*time.Second))
	}
	if len(r.failures()) > 0 || !r.terminates(x) {
		for _, c := range x.cands {
			if !c.dead {
				c.proven = true
			} else if !c.auto && !c.broken {
				c.dead = false
				c.killGen = 0
			}
		}
		x.gen++
		for _, v := range x.vcs {
			if v.cand != nil && !v.cand.proven {
				v.res = nil
			}
		}
		x.houdini(1, short, long)
		r.discharge(x, 1, short, long)
	}
	// some way out of the function must be reachable under its contract
	exits, reach := 0, false
	var kept []*VC
	for _, v := range r.vcs {
		if v.kind == "cover-exit" {
			exits++
			reach = reach || v.res.status == "unsat"
			continue
		}
		kept = append(kept, v)
	}
	r.vcs = kept
	if exits > 0 {
		v := &VC{fn: c.key, kind: "cover", name: "some exit is reachable", props: c.props, res: &VCResult{status: "unsat", backend: "satisfiability probe"}}
		if !reach {
			v.res.status = "vacuous"
		}
		r.vcs = append(r.vcs, v)
	}
	// termination
	if !c.noTerm {
		keys := sortedKeys(x.loopsCut)
		for _, k := range keys {
			ok := x.loopTerm[k]
			var by string
			for _, b := range x.bounds[k] {
				if !b.dead {
					ok = true
					by = b.desc
					break
				}
			}
			v := &VC{fn: c.key, kind: "termination", name: x.loopLoc[k] + " terminates", goal: BoolLit(ok), props: c.props, note: by}
			v.res = &VCResult{status: "unsat", backend: "bound invariant"}
			if !ok {
				v.res.status = "unknown"
			}
			r.vcs = append(r.vcs, v)
		}
	}
	r.dur = time.Since(start)
	return r
}

// discharge attempts the obligations that are not proved yet.
func (r *FnReport) discharge(x *Exec, effort int, short, long time.Duration) {
	var jobs []*VC
	var qs []string
	r.vcs = nil
	for _, v := range x.vcs {
		if v.cand != nil {
			if !v.cand.dead {
				r.vcs = append(r.vcs, v)
			}
			continue
		}
		r.vcs = append(r.vcs, v)
		if v.res != nil && v.res.status == "unsat" {
			continue
		}
		if v.trivial() && v.kind != "cover" && v.kind != "cover-exit" {
			v.res = &VCResult{status: "unsat", backend: "syntactic"}
			continue
		}
		jobs = append(jobs, v)
	}
	trace("%s: %d obligations (effort %d)", r.key, len(jobs), effort)
	jobs = discharged(jobs, short)
	trace("  %d left one by one", len(jobs))
	for _, v := range jobs {
		qs = append(qs, Query(v.assumptions(), v.goal, v.theorem))
	}
	var nfail atomic.Int64
	parallel(len(jobs), func(i int) {
		if jobs[i].kind == "cover" || jobs[i].kind == "cover-exit" {
			jobs[i].res = solve(qs[i], 0, time.Second, time.Second)
			if jobs[i].res.status == "unsat" {
				jobs[i].res.status = "vacuous"
			} else {
				jobs[i].res.status = "unsat"
			}
			return
		}
		eff := effort
		if nfail.Load() >= 3 || time.Now().After(deadline) {
			eff = 0 // the function fails already: no long attempts for the rest
		}
		jobs[i].res = solve(qs[i], eff, short, long)
		if jobs[i].res.status != "unsat" {
			nfail.Add(1)
		}
	})
	trace("  %d failed", nfail.Load())
}

// discharged tries the obligations that share a path together, and returns
// those that are left.
func discharged(jobs []*VC, short time.Duration) (rest []*VC) {
	byPC := map[*PC][]*VC{}
	var order []*PC
	for _, v := range jobs {
		if v.kind == "cover" || v.kind == "cover-exit" || v.theorem != 0 {
			rest = append(rest, v)
			continue
		}
		if byPC[v.pc] == nil {
			order = append(order, v.pc)
		}
		byPC[v.pc] = append(byPC[v.pc], v)
	}
	var groups [][]*VC
	var qs []string
	for _, pc := range order {
		vs := byPC[pc]
		for len(vs) > 0 {
			n := min(len(vs), 12)
			if n == 1 {
				rest = append(rest, vs[0])
			} else {
				var goals []*Term
				for _, v := range vs[:n] {
					goals = append(goals, v.goal)
				}
				groups = append(groups, vs[:n])
				qs = append(qs, Query(vs[0].assumptions(), And(goals...), 0))
			}
			vs = vs[n:]
		}
	}
	if os.Getenv("GOVER_DEBUG") != "" {
		fmt.Fprintln(os.Stderr, "groups", len(groups), "singles", len(rest))
	}
	parallel(len(groups), func(i int) {
		res := solve(qs[i], 0, short, short)
		if res.status == "unsat" {
			for _, v := range groups[i] {
				v.res = res
			}
		}
	})
	for _, g := range groups {
		if g[0].res == nil || g[0].res.status != "unsat" {
			rest = append(rest, g...)
		}
	}
	return rest
}

// terminates: every loop that was cut has a live bound.
func (r *FnReport) terminates(x *Exec) bool {
	if x.c.noTerm {
		return true
	}
	for k := range x.loopsCut {
		ok := x.loopTerm[k]
		for _, b := range x.bounds[k] {
			ok = ok || !b.dead
		}
		if !ok {
			return false
		}
	}
	return true
}

func (r *FnReport) failures() []*VC {
	var out []*VC
	for _, v := range r.vcs {
		if v.kind == "cover-exit" {
			continue // one reachable exit is enough; counted at the end
		}
		if v.res == nil || v.res.status != "unsat" {
			out = append(out, v)
		}
	}
	return out
}

func (r *FnReport) print(verbose bool, dump string) int {
	if r.err != nil {
		fmt.Printf("ERR   %s: %v\n", r.key, r.err)
		return 1
	}
	f := r.failures()
	fmt.Printf("%-5s %-45s %d obligations, %d failed, %d paths, %.1fs\n", map[bool]string{true: "ok", false: "FAIL"}[len(f) == 0], r.key, len(r.vcs), len(f), r.x.npaths, r.dur.Seconds())
	for i, v := range f {
		fmt.Printf("   - [%s] %s  {%s} (%s %.1fs)\n       path: %s\n", v.kind, v.name, v.text, v.res.status, v.res.dur.Seconds(), v.note)
		if dump != "" {
			os.MkdirAll(dump, 0755)
			os.WriteFile(fmt.Sprintf("%s/%d.smt2", dump, i), []byte(v.res.query), 0644)
		}
	}
	if verbose {
		var ids []string
		for id := range r.x.cands {
			ids = append(ids, id)
		}
		sort.Strings(ids)
		for _, id := range ids {
			c := r.x.cands[id]
			if c.dead {
				fmt.Printf("     dead %s: %s\n", id, c.why)
			} else {
				fmt.Printf("     LIVE %s\n", id)
			}
		}
		slow := append([]*VC{}, r.vcs...)
		sort.Slice(slow, func(i, j int) bool { return slow[i].res.dur > slow[j].res.dur })
		for i, v := range slow {
			if i > 6 || v.res.dur < 300*time.Millisecond {
				break
			}
			fmt.Printf("     slow %.1fs %s [%s] %s %s\n", v.res.dur.Seconds(), v.res.backend, v.kind, v.name, v.res.status)
		}
		for n := range r.x.notesum {
			fmt.Println("     note:", n)
		}
		for n := range r.x.trusted {
			fmt.Println("     trusted:", n)
		}
	}
	return len(f)
}

// internal reports whether a function is not part of the package's interface
// (unexported, or a function literal): a tree without it, or with another
// parameter list, is judged by the contracts of the functions that used it.
func internal(key string) bool {
	n := key[strings.LastIndexByte(key, '.')+1:]
	return strings.Contains(n, "$") || n != "" && !(n[0] >= 'A' && n[0] <= 'Z')
}
