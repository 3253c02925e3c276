package main

import (
	"bytes"
	"context"
	"fmt"
	"os"
	"os/exec"
	"runtime"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

type VCResult struct {
	status  string // unsat (proved), sat, unknown
	backend string
	dur     time.Duration
	out     string
	query   string
}

var solverSem = make(chan struct{}, max(2, runtime.NumCPU()))

var (
	deadline   = time.Now().Add(time.Hour)
	solverTime atomic.Int64
	solverRuns atomic.Int64
)

type backend struct {
	name string
	cmd  []string
	pre  string
}

var (
	bkZ3   = backend{"z3-new", []string{"z3-new", "-in", "-smt2"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n(set-option :smt.case_split 3)\n(set-option :smt.qi.eager_threshold 100)\n"}
	bkZ3b  = backend{"z3-new/mbqi", []string{"z3-new", "-in", "-smt2"}, ""}
	bkZ3o  = backend{"z3-4.8", []string{"z3", "-in", "-smt2"}, "(set-option :auto_config false)\n(set-option :smt.mbqi false)\n"}
	bkCvc5 = backend{"cvc5", []string{"cvc5", "--lang=smt2", "--arrays-exp", "-"}, "(set-logic ALL)\n"}
)

func runSolver(ctx context.Context, b backend, q string, to time.Duration) (string, string) {
	c, cancel := context.WithTimeout(ctx, to+500*time.Millisecond)
	defer cancel()
	args := append([]string{}, b.cmd[1:]...)
	switch {
	case strings.HasPrefix(b.name, "z3"):
		args = append(args, fmt.Sprintf("-t:%d", to.Milliseconds()))
	case b.name == "cvc5":
		args = append([]string{fmt.Sprintf("--tlimit=%d", to.Milliseconds())}, args...)
	}
	cmd := exec.CommandContext(c, b.cmd[0], args...)
	cmd.Stdin = strings.NewReader(b.pre + q)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Stderr = &out
	t0 := time.Now()
	cmd.Run()
	solverTime.Add(int64(time.Since(t0)))
	solverRuns.Add(1)
	s := strings.TrimSpace(out.String())
	first := s
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		first = s[:i]
	}
	switch first {
	case "unsat", "sat", "unknown":
		return first, s
	}
	if c.Err() != nil || s == "" || strings.Contains(s, "timeout") || strings.Contains(s, "interrupted") {
		return "unknown", s
	}
	if strings.Contains(s, "error") || strings.Contains(s, "Error") {
		if os.Getenv("GOVER_DEBUG") != "" {
			fmt.Fprintln(os.Stderr, b.name, s)
			os.WriteFile("/tmp/gover_err.smt2", []byte(b.pre+q), 0644)
		}
		return "error", s
	}
	return "unknown", s
}

// solve decides one query. effort 0: one short attempt; 1: full portfolio.
func solve(q string, effort int, short, long time.Duration) *VCResult {
	start := time.Now()
	solverSem <- struct{}{}
	st, out := runSolver(context.Background(), bkZ3, q, short)
	<-solverSem
	r := &VCResult{status: st, backend: bkZ3.name, out: out, query: q}
	if st == "unsat" || effort == 0 {
		r.dur = time.Since(start)
		return r
	}
	bks := []backend{bkCvc5, bkZ3b, bkZ3o, bkZ3}
	ctx, cancel := context.WithCancel(context.Background())
	defer cancel()
	type ans struct {
		b       backend
		st, out string
	}
	ch := make(chan ans, len(bks))
	for _, b := range bks {
		go func(b backend) {
			solverSem <- struct{}{}
			defer func() { <-solverSem }()
			if ctx.Err() != nil {
				ch <- ans{b, "unknown", ""}
				return
			}
			s, o := runSolver(ctx, b, q, long)
			ch <- ans{b, s, o}
		}(b)
	}
	for range bks {
		a := <-ch
		if a.st == "unsat" {
			r.status, r.backend, r.out = "unsat", a.b.name, a.out
			break
		}
		if a.st == "sat" && r.status != "sat" {
			r.status, r.backend, r.out = "sat", a.b.name, a.out
		}
	}
	r.dur = time.Since(start)
	return r
}

func (vc *VC) assumptions() []*Term {
	var as []*Term
	for p := vc.pc; p != nil; p = p.prev {
		if p.cand != nil && p.cand.dead {
			continue
		}
		as = append(as, p.t)
	}
	for i, j := 0, len(as)-1; i < j; i, j = i+1, j-1 {
		as[i], as[j] = as[j], as[i]
	}
	return as
}

// trivial: the goal is literally assumed or the path is syntactically infeasible
func (vc *VC) trivial() bool {
	if vc.goal == tTrue {
		return true
	}
	for p := vc.pc; p != nil; p = p.prev {
		if p.cand != nil && p.cand.dead {
			continue
		}
		if p.t == vc.goal || p.t == tFalse {
			return true
		}
	}
	return false
}

func parallel(n int, f func(i int)) {
	var wg sync.WaitGroup
	idx := make(chan int)
	for w := 0; w < max(2, runtime.NumCPU()); w++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range idx {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		idx <- i
	}
	close(idx)
	wg.Wait()
}

// houdini removes candidates that are not inductive.
func (x *Exec) houdini(effort int, short, long time.Duration) {
	for round := 0; round < 40; round++ {
		var vcs []*VC
		for _, v := range x.vcs {
			if v.cand != nil && !v.cand.dead && !v.cand.proven && !(v.res != nil && v.res.status == "unsat" && !x.dirty(v)) {
				vcs = append(vcs, v)
			}
		}
		if len(vcs) == 0 {
			return
		}
		type job struct {
			v *VC
			q string
		}
		var open []*VC
		for _, v := range vcs {
			v.gen = x.gen
			if v.trivial() {
				v.res = &VCResult{status: "unsat", backend: "syntactic"}
				continue
			}
			v.res = nil
			open = append(open, v)
		}
		// the conditions that share a path are tried together first
		n := len(open)
		open = discharged(open, short)
		trace("round %d: %d conditions, %d left", round, n, len(open))
		var jobs []job
		for _, v := range open {
			jobs = append(jobs, job{v, Query(v.assumptions(), v.goal, v.theorem)})
		}
		parallel(len(jobs), func(i int) {
			j := jobs[i]
			eff := 0
			if !j.v.cand.auto && !time.Now().After(deadline) {
				eff = effort
			}
			j.v.res = solve(j.q, eff, short, long)
		})
		killed := 0
		// automatic candidates go first: with them out of the way a candidate
		// from a contract that the solver merely gave up on gets another try
		for _, user := range []bool{false, true} {
			for _, j := range jobs {
				if j.v.res.status != "unsat" && !j.v.cand.dead && j.v.cand.auto != user {
					j.v.cand.dead = true
					j.v.cand.killGen = x.gen + 1
					j.v.cand.why = fmt.Sprintf("round %d %s %s %.1fs on %s", round, j.v.kind, j.v.res.status, j.v.res.dur.Seconds(), j.v.note)
					if os.Getenv("GOVER_DUMP") != "" && (user || os.Getenv("GOVER_DUMP_AUTO") != "") {
						os.WriteFile(fmt.Sprintf("%s/cand%d.smt2", os.Getenv("GOVER_DUMP"), ndump), []byte(j.q), 0644)
						j.v.cand.why += fmt.Sprintf(" (cand%d)", ndump)
						ndump++
					}
					killed++
				}
			}
			if killed > 0 {
				break
			}
		}
		trace("  %d candidates out", killed)
		if killed == 0 {
			return
		}
		x.gen++
	}
}

// dirty: some candidate assumed on this path died after the result was obtained.
func (x *Exec) dirty(v *VC) bool {
	for p := v.pc; p != nil; p = p.prev {
		if p.cand != nil && p.cand.dead && p.cand.deadGen(v) {
			return true
		}
	}
	return false
}

func (c *Cand) deadGen(v *VC) bool { return v.gen < c.killGen || c.killGen == 0 }

var ndump int

// trace: progress, with GOVER_TRACE set.
func trace(f string, a ...any) {
	if os.Getenv("GOVER_TRACE") != "" {
		fmt.Fprintf(os.Stderr, "%s %.0fs "+f+"\n", append([]any{time.Now().Format("15:04:05"), float64(solverTime.Load()) / 1e9}, a...)...)
	}
}
