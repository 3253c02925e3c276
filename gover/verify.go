package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"path/filepath"
	"sort"
	"strings"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
)

// ---------------------------------------------------------------- world

type World struct {
	repo     string
	prog     *ssa.Program
	fset     *token.FileSet
	spec     *Spec
	pkgs     map[string]*types.Package
	funcs    map[string]*ssa.Function
	cellType map[string]types.Type
}

func loadWorld(repo string, spec *Spec) (*World, error) {
	cfg := &packages.Config{Mode: packages.LoadAllSyntax, Dir: repo, Env: append(os.Environ(), "GOFLAGS=-mod=readonly", "GOPROXY=off")}
	ps, err := packages.Load(cfg, "./...")
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(ps, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("repository does not load: %s", strings.Join(errs, "; "))
	}
	prog, _ := ssautil.AllPackages(ps, 0)
	prog.Build()
	w := &World{repo: repo, prog: prog, fset: prog.Fset, spec: spec, pkgs: map[string]*types.Package{}, funcs: map[string]*ssa.Function{}, cellType: map[string]types.Type{}}
	mine := map[string]bool{}
	for _, p := range ps {
		mine[p.PkgPath] = true
	}
	var order []*ssa.Package
	for _, p := range prog.AllPackages() {
		order = append(order, p)
	}
	sort.Slice(order, func(i, j int) bool {
		a, b := order[i].Pkg.Path(), order[j].Pkg.Path()
		if mine[a] != mine[b] {
			return mine[a]
		}
		return a < b
	})
	for _, p := range order {
		// repository packages win over library packages of the same name;
		// golang.org/x/exp wins over the standard library (slices, maps)
		old, ok := w.pkgs[p.Pkg.Name()]
		if !ok || (strings.HasPrefix(p.Pkg.Path(), "golang.org/x/exp") && !mine[old.Path()]) {
			w.pkgs[p.Pkg.Name()] = p.Pkg
		}
	}
	var add func(f *ssa.Function)
	add = func(f *ssa.Function) {
		w.funcs[funcKey(f)] = f
		for _, a := range f.AnonFuncs {
			add(a)
		}
	}
	for _, p := range order {
		if !mine[p.Pkg.Path()] && !strings.HasPrefix(p.Pkg.Path(), "golang.org/x/exp") {
			continue
		}
		for _, m := range p.Members {
			switch m := m.(type) {
			case *ssa.Function:
				add(m)
			case *ssa.Type:
				n, ok := types.Unalias(m.Type()).(*types.Named)
				if !ok {
					continue
				}
				for i := 0; i < n.NumMethods(); i++ {
					if f := prog.FuncValue(n.Method(i)); f != nil {
						add(f)
					}
				}
			}
		}
	}
	return w, nil
}

func (w *World) pkgByName(n string) *types.Package { return w.pkgs[n] }

func (w *World) pos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.fset.Position(p)
	f := q.Filename
	if r, err := filepath.Rel(w.repo, f); err == nil && !strings.HasPrefix(r, "..") {
		f = r
	} else {
		f = filepath.Base(filepath.Dir(f)) + "/" + filepath.Base(f)
	}
	return fmt.Sprintf("%s:%d", f, q.Line)
}

func (w *World) shortPos(p token.Pos) string {
	if !p.IsValid() {
		return "?"
	}
	q := w.fset.Position(p)
	return fmt.Sprintf("%s:%d", filepath.Base(q.Filename), q.Line)
}

func (w *World) loopPos(h *ssa.BasicBlock) string {
	for _, in := range h.Instrs {
		if in.Pos().IsValid() {
			return w.pos(in.Pos())
		}
	}
	for _, s := range h.Succs {
		for _, in := range s.Instrs {
			if in.Pos().IsValid() {
				return w.pos(in.Pos())
			}
		}
	}
	return "?"
}

// ---------------------------------------------------------------- verifying one function

func newExec(w *World, c *Contract, fn *ssa.Function) *Exec {
	x := &Exec{w: w, c: c, fn: fn,
		modset: map[string]map[string]bool{}, cands: map[string]*Cand{}, escCache: map[*ssa.Alloc]bool{},
		loopInfo: map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{},
		recCache: map[*ssa.Function]bool{}}
	return x
}

func (x *Exec) reset() {
	x.init = map[string]*Term{}
	x.vcs = nil
	x.restart = false
	x.npaths, x.nsteps = 0, 0
	x.used, x.trusted, x.inlined, x.loopsCut, x.loopLoc = map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]bool{}, map[string]string{}
	x.notesum = map[string]bool{}
	x.entryPath = map[string]string{}
	x.cloOf = map[*Term]*Closure{}
	x.fnNames = map[*Term]string{}
	x.cbs = map[*Term]*CallbackSpec{}
	x.bounds = map[string][]*Cand{}
	x.cands = map[string]*Cand{}
	x.finals = nil
	x.collect = false
	x.inSummary = 0
	x.loopTerm = map[string]bool{}
	x.frozenLoops = map[string]bool{}
	freshN = map[string]int{}
}

func resetTerms() {
	termTab = map[string]*Term{}
	symDecl = map[string]*Decl{}
	symOrder = nil
	subKinds = map[string]int64{}
	allocBases = nil
	bvN = 0
	theoremNo = map[*Term]int{}
	theoremVCs = nil
	// re-intern the fixed terms
	tTrue = builtin("true", SBool)
	tFalse = builtin("false", SBool)
	nilRef = Const("nil", SRef)
	nilFn = Const("nilFn", SFn)
	nilIface = Const("nilIface", SIface)
	emptyStr = Const("emptyStr", SStr)
}

// build runs symbolic execution to a fixpoint of the loop modification sets.
func (x *Exec) build() (err error) {
	_, logAllocs = x.c.opts["alloclog"]
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case unsupportedErr:
				err = r
			case evalErr:
				err = fmt.Errorf("spec: %s", r.msg)
			case error:
				if os.Getenv("GOVER_DEBUG") != "" {
					panic(r)
				}
				err = fmt.Errorf("internal: %v", r)
			default:
				if os.Getenv("GOVER_DEBUG") != "" {
					panic(r)
				}
				err = fmt.Errorf("internal: %v", r)
			}
		}
	}()
	for round := 0; round < 60; round++ {
		resetTerms()
		x.reset()
		x.run()
		if !x.restart {
			x.vcs = append(x.vcs, theoremVCs...)
			return nil
		}
	}
	return unsupported("loop modification sets do not stabilise")
}

func (x *Exec) ctx(st *State) *evalCtx {
	return &evalCtx{x: x, cur: st, old: x.entry, env: x.env, tenv: x.tenv, targs: x.targs, pkg: x.pkgOf(x.fn)}
}

func (x *Exec) run() {
	fn := x.fn
	c := x.c
	x.tenv, x.targs = x.tenvFor(c, fn, nil)
	st := &State{x: x, heap: map[string]*Term{}, cells: map[string]Value{}, iters: map[string]*Iter{}}
	fr := &Frame{fn: fn, sigma: Sigma{}, env: map[ssa.Value]Value{}, id: "f", block: fn.Blocks[0]}
	x.env = map[string]SV{}
	if len(c.params) != len(fn.Params) {
		panic(unsupported(fmt.Sprintf("contract %s has %d parameters, code has %d", c.key, len(c.params), len(fn.Params))))
	}
	for i, p := range fn.Params {
		ty := p.Type()
		t := Const("arg:"+c.params[i], sortOf(ty))
		fr.env[p] = tv(t)
		x.env[c.params[i]] = SV{t: t, ty: ty}
		if t.sort == SFn {
			x.fnNames[t] = c.params[i]
		}
		st.typeFacts(t, ty)
		if i == 0 && fn.Signature.Recv() != nil {
			if _, ok := under(ty).(*types.Pointer); ok && c.opts["nilrecv"] == "" {
				if _, has := c.opts["nilrecv"]; !has {
					st.assume(Not(Eq(t, nilRef)))
				}
			}
		}
	}
	for _, fv := range fn.FreeVars {
		t := Const("fv:"+fv.Name(), sortOf(fv.Type()))
		fr.env[fv] = tv(t)
		st.typeFacts(t, fv.Type())
		if t.sort == SRef {
			st.assume(Not(Eq(t, nilRef)))
		}
		x.env[fv.Name()] = SV{t: t, ty: fv.Type()}
	}
	st.frames = []*Frame{fr}
	x.entry = st
	ctx := x.ctx(st)
	ctx.old = st
	for _, r := range c.requires {
		t, err := ctx.Bool(r.e)
		if err != nil {
			panic(evalErr{c.key + " requires " + r.label + ": " + err.Error()})
		}
		st.assume(t)
	}
	x.assumeLinks(st, ctx)
	if c.decreases != nil {
		v, err := ctx.Val(c.decreases.e)
		if err != nil {
			panic(evalErr{err.Error()})
		}
		x.measure = ctx.term(v)
	}
	for name, cb := range c.callbacks {
		e, err := parseExpr(name)
		if err != nil {
			panic(evalErr{err.Error()})
		}
		v, err := ctx.Val(e)
		if err != nil {
			panic(evalErr{err.Error()})
		}
		x.cbs[ctx.term(v)] = cb
	}
	x.entry = st.clone()
	// vacuity: the precondition must not be contradictory
	x.vcs = append(x.vcs, &VC{fn: c.key, kind: "cover", name: "precondition satisfiable", pc: st.pc, goal: tFalse, props: c.props})
	x.concInit(st)
	x.functional = nil
	x.drain([]*State{st})
	x.functionalVCs()
}

type funcExit struct {
	pc   *PC
	e    *Clause
	res  *Term
	args []*Term
	note string
}

// noteFunctional records an exit of a function whose result defines a
// function symbol: r == f(args).
func (x *Exec) noteFunctional(st *State, e *Clause, t *Term) {
	if t.kind != 'b' || t.op != "=" || len(t.args) != 2 {
		panic(evalErr{"functional clause must be r == f(parameters)"})
	}
	res, f := t.args[0], t.args[1]
	isF := func(t *Term) bool {
		return t.kind == 'f' && len(t.args) > 0 && strings.HasPrefix(t.op, "spec:") || t.kind == 'f' && len(t.args) > 0 && allArgs(t.args)
	}
	if !isF(f) {
		res, f = f, res
	}
	if !isF(f) {
		panic(evalErr{"functional clause must be r == f(parameters)"})
	}
	x.functional = append(x.functional, &funcExit{st.pc, e, res, f.args, strings.Join(st.notes, " ; ")})
}

func allArgs(ts []*Term) bool {
	for _, t := range ts {
		if t.kind != 'f' || len(t.args) != 0 || !strings.HasPrefix(t.op, "arg:") {
			return false
		}
	}
	return true
}

// functionalVCs: two runs that agree on the listed arguments (and on nothing
// else) return the same result.
func (x *Exec) functionalVCs() {
	if x.restart {
		return
	}
	for _, a := range x.functional {
		keep := map[*Term]bool{}
		for _, t := range a.args {
			keep[t] = true
		}
		for _, b := range x.functional {
			if a.e != b.e {
				continue
			}
			ren := map[*Term]*Term{}
			seen := map[*Term]bool{}
			var scan func(t *Term)
			scan = func(t *Term) {
				if seen[t] {
					return
				}
				seen[t] = true
				if t.kind == 'f' && len(t.args) == 0 && !keep[t] && (strings.ContainsAny(t.op, "~@") || strings.HasPrefix(t.op, "arg:") || strings.HasPrefix(t.op, "fv:")) {
					ren[t] = Const(t.op+"'", t.sort)
				}
				for _, u := range t.args {
					scan(u)
				}
			}
			scan(b.res)
			for p := b.pc; p != nil; p = p.prev {
				scan(p.t)
			}
			pc := a.pc
			var rec func(p *PC)
			rec = func(p *PC) {
				if p == nil {
					return
				}
				rec(p.prev)
				pc = &PC{prev: pc, t: Subst(p.t, ren), cand: p.cand}
			}
			rec(b.pc)
			x.vcs = append(x.vcs, &VC{fn: x.c.key, kind: "ensures", name: "functional: " + a.e.label, pc: pc, goal: Eq(a.res, Subst(b.res, ren)), props: x.c.props, note: a.note + " | " + b.note, text: a.e.text})
		}
	}
}

// assumeLinks assumes, at entry and exit, the assumptions a contract states
// explicitly (reported as trusted).
func (x *Exec) assumeLinks(st *State, ctx *evalCtx) {
	for _, a := range x.c.assumes {
		t, err := ctx.Bool(a.e)
		if err != nil {
			panic(evalErr{x.c.key + " assume " + a.label + ": " + err.Error()})
		}
		x.trusted["assumed in "+x.c.key+": "+a.text] = true
		st.assume(t)
	}
}

func (x *Exec) finish(st *State, res []Value) {
	if x.collect {
		x.finals = append(x.finals, &finalState{st, res})
		return
	}
	env := map[string]SV{}
	sig := x.fn.Signature.Results()
	for i, r := range res {
		if i < len(x.c.results) {
			ty := sig.At(i).Type()
			env[x.c.results[i]] = SV{t: x.term(st, r, ty), ty: ty}
		}
	}
	x.finishWith(st, env, x.c.ensures, "ensures")
}

func (x *Exec) finishPanic(st *State) {
	if x.collect {
		return
	}
	st.notes = append(st.notes, "panic")
	if len(x.c.onpanic) == 0 && !x.c.mayPanic {
		x.oblige(st, "safety", "no panic leaves the function", tFalse, nil, "")
		return
	}
	x.finishWith(st, map[string]SV{}, x.c.onpanic, "onpanic")
}

func (x *Exec) finishWith(st *State, env map[string]SV, clauses []*Clause, kind string) {
	x.nfinal++
	ctx := x.ctx(st).with(env)
	for _, g := range x.c.ghost {
		if err := x.ghostUpdate(st, g, ctx); err != nil {
			panic(evalErr{x.c.key + " ghost: " + err.Error()})
		}
	}
	x.assumeLinks(st, ctx)
	for _, l := range x.c.lemmas {
		t, err := ctx.Bool(l.e)
		if err != nil {
			panic(evalErr{x.c.key + " lemma " + l.label + ": " + err.Error()})
		}
		x.obligeSplit(st, "lemma", l.label, t, nil, l.text)
		st.assume(t)
	}
	x.oblige(st, "cover-exit", kind, tFalse, nil, "")
	for _, e := range clauses {
		t, err := ctx.Bool(e.e)
		if err != nil {
			panic(evalErr{x.c.key + " " + kind + " " + e.label + ": " + err.Error()})
		}
		props := e.props
		if e.functional {
			x.noteFunctional(st, e, t)
			continue
		}
		x.obligeSplit(st, kind, e.label, t, props, e.text)
		st.assume(t)
	}
	x.concFinish(st, ctx)
	// frame
	if x.c.modAll {
		return
	}
	mod := map[string]modRef{}
	mods, err := x.modHeaps(ctx, x.c.modifies)
	if err != nil {
		panic(evalErr{x.c.key + " modifies: " + err.Error()})
	}
	for _, m := range mods {
		mod[m.name] = m
	}
	for _, name := range sortedKeys(st.heap) {
		if strings.HasPrefix(name, "V:") || strings.HasPrefix(name, "log:") {
			continue
		}
		if name == allocHeap {
			ty, ok := x.c.opts["noalloc"]
			if ok && ty != "" {
				x.oblige(st, "frame", "allocates no "+ty, ctx.noAlloc(ty, x.entry.alloc(), st.alloc()), nil, "")
			}
			if !ok || ty != "" {
				continue
			}
		}
		m, listed := mod[name]
		if listed && !m.scoped {
			continue
		}
		cur, ini := st.heap[name], x.init[name]
		if ini == nil || cur == ini {
			continue
		}
		g := Eq(cur, ini)
		if listed {
			g = m.unchangedOutside(x.entry.alloc(), ini, cur, true)
		} else if strings.HasPrefix(string(cur.sort), "(Array Ref ") {
			r := NamedBVar("r!fr", SRef)
			g = Eq(Select(cur, r), Select(ini, r))
			if !strings.HasPrefix(name, "GF:") {
				// Contracts quantify over allocated objects only, so what a
				// heap holds at references that were not allocated before the
				// call is unconstrained in every caller.
				g = Imp(And(Select(x.entry.alloc(), r), rightType(name, r)), g)
			}
			g = Forall([]*Term{r}, nil, g)
		}
		x.oblige(st, "frame", "nothing but the modifies clause changes: "+name, g, nil, "")
	}
}

func (x *Exec) obligeSplit(st *State, kind, name string, t *Term, props []string, text string) {
	parts := splitGoal(t)
	if len(parts) == 1 {
		x.oblige(st, kind, name, t, props, text)
		return
	}
	for i, a := range parts {
		x.oblige(st, kind, fmt.Sprintf("%s #%d", name, i+1), a, props, text)
	}
}

func splitGoal(t *Term) []*Term {
	switch {
	case t.kind == 'b' && t.op == "and":
		var out []*Term
		for _, a := range t.args {
			out = append(out, splitGoal(a)...)
		}
		return out
	case t.kind == 'b' && t.op == "=>":
		var out []*Term
		for _, a := range splitGoal(t.args[1]) {
			out = append(out, Imp(t.args[0], a))
		}
		return out
	}
	return []*Term{t}
}

// ghostUpdate performs   target := expr   or   target := [i T] expr.
func (x *Exec) ghostUpdate(st *State, g *Clause, c *evalCtx) (err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case evalErr:
				err = fmt.Errorf("%s", r.msg)
			case unsupportedErr:
				err = r
			default:
				panic(r)
			}
		}
	}()
	cc := *c
	cc.cur = st
	c = &cc
	cond := tTrue
	if g.cond != nil {
		cond = c.term(c.eval(g.cond))
		if cond == tFalse {
			return nil
		}
	}
	if g.target.op != "field" {
		return fmt.Errorf("ghost target must be a ghost field")
	}
	value := func(cx *evalCtx, so Sort, ty types.Type) *Term {
		if len(g.vars) == 0 {
			v := cx.eval(g.e)
			if v.ty == tyNil {
				return zeroOfSort(so)
			}
			return cx.term(v)
		}
		// array comprehension
		m := map[string]SV{}
		var bvs []*Term
		for _, vd := range g.vars {
			vt := cx.typ(vd.typ)
			bv := BVar(vd.name, sortOf(vt))
			bvs = append(bvs, bv)
			m[vd.name] = SV{t: bv, ty: vt}
		}
		n := cx.with(m)
		body := n.eval(g.e)
		arr := Fresh("ghost", so)
		vs := so
		sel := arr
		for _, bv := range bvs {
			_, vs = arrParts(vs)
			sel = Select(sel, bv)
		}
		var bt *Term
		if body.ty == tyNil {
			bt = zeroOfSort(vs)
		} else {
			bt = n.term(body)
		}
		pats := [][]*Term{{sel}}
		for _, p := range g.pats {
			var ps []*Term
			for _, e := range p {
				ps = append(ps, n.term(n.eval(e)))
			}
			pats = append(pats, ps)
		}
		st.assume(Forall(bvs, pats, Eq(sel, bt)))
		return arr
	}
	// whole-heap form: Type.field := [r *Type] expr
	if b := g.target.args[0]; b.op == "ident" {
		if _, isVar := c.env[b.s]; !isVar {
			ty := c.typ(&TypeExpr{op: "name", name: b.s})
			name, so, fty, ok := x.ghostHeap(ty, g.target.s)
			if !ok {
				return fmt.Errorf("no ghost field %s.%s", b.s, g.target.s)
			}
			nv := value(c, so, fty)
			if cond != tTrue {
				nv = Ite(cond, nv, st.get(name, so))
			}
			st.get(name, so)
			st.set(name, nv)
			return nil
		}
	}
	base := c.eval(g.target.args[0])
	bty, isPtr := deref(base.ty)
	var ref *Term
	if isPtr {
		ref = c.term(base)
	} else if base.ref != nil {
		ref = base.ref
	} else {
		ref = c.term(base)
	}
	name, so, fty, ok := x.ghostHeap(bty, g.target.s)
	if !ok {
		return fmt.Errorf("no ghost field %s on %s", g.target.s, typeStr(bty))
	}
	_, vs := arrParts(so)
	nv := value(c, vs, fty)
	h := st.get(name, so)
	if cond != tTrue {
		nv = Ite(cond, nv, Select(h, ref))
	}
	st.set(name, Store(h, ref, nv))
	return nil
}

// ---------------------------------------------------------------- loop candidates

type slotSrc struct {
	kind byte // 'p' phi, 'c' cell, 'v' fixed value
	phi  *ssa.Phi
	cell string
	val  Value
	ty   types.Type
	name string
}

type candDef struct {
	cl    *Clause
	slots map[string]slotSrc
	auto  func(cx *evalCtx, lc *LoopCtx) *Term
	bound bool
}

func (s slotSrc) get(cx *evalCtx) SV {
	switch s.kind {
	case 'p':
		v := cx.phiVal(s.phi)
		return SV{t: cx.x.term(cx.cur, v, s.ty), ty: s.ty}
	case 'c':
		v, ok := cx.cur.cells[s.cell]
		if !ok {
			panic(evalErr{"cell not live"})
		}
		return SV{t: cx.x.term(cx.cur, v, s.ty), ty: s.ty}
	}
	return SV{t: cx.x.term(cx.cur, s.val, s.ty), ty: s.ty}
}

func (s slotSrc) getPre(cx *evalCtx, lc *LoopCtx) (SV, bool) {
	switch s.kind {
	case 'p':
		v := lc.prePhi[s.phi]
		if v.t == nil {
			return SV{}, false
		}
		return SV{t: v.t, ty: s.ty}, true
	case 'c':
		v, ok := lc.pre.cells[s.cell]
		if !ok || v.t == nil {
			return SV{}, false
		}
		return SV{t: v.t, ty: s.ty}, true
	}
	return SV{t: cx.x.term(cx.cur, s.val, s.ty), ty: s.ty}, true
}

func (x *Exec) mkCand(lc *LoopCtx, desc string, d *candDef) {
	id := lc.key + "|" + desc
	c := x.cands[id]
	if c == nil {
		c = &Cand{id: id, loop: lc.key, desc: desc, auto: d.auto != nil && !strings.HasPrefix(desc, "frame of the contract")}
		x.cands[id] = c
		if x.killed[id] {
			c.dead = true
		}
	}
	if d.bound {
		found := false
		for _, b := range x.bounds[lc.key] {
			if b == c {
				found = true
			}
		}
		if !found {
			x.bounds[lc.key] = append(x.bounds[lc.key], c)
		}
	}
	lc.cands = append(lc.cands, c)
	lc.defs[c] = d
}

func (x *Exec) makeCands(st *State, lc *LoopCtx, phis []*ssa.Phi, incoming map[*ssa.Phi]Value) {
	fr := st.top()
	lc.defs = map[*Cand]*candDef{}
	var mut, fix []slotSrc
	for i, p := range phis {
		ty := substType(p.Type(), fr.sigma)
		v := incoming[p]
		if v.t == nil && (v.clo != nil || v.addr != nil) {
			continue
		}
		nm := p.Comment
		if nm == "" {
			nm = fmt.Sprintf("phi%d", i)
		}
		mut = append(mut, slotSrc{kind: 'p', phi: p, ty: ty, name: nm})
	}
	ms := x.modset[lc.key]
	cmods, _ := x.modHeaps(x.ctx(x.entry), x.c.modifies)
	for _, cn := range sortedKeys(st.cells) {
		v := st.cells[cn]
		if v.t == nil {
			continue
		}
		s := slotSrc{kind: 'c', cell: cn, ty: x.w.cellType[cn], name: cn[strings.LastIndexByte(cn, '/')+1:]}
		if ms["cell:"+cn] {
			mut = append(mut, s)
		} else {
			fix = append(fix, s)
		}
	}
	// parameters and live-in values
	for _, n := range sortedKeys(x.env) {
		v := x.env[n]
		if v.t != nil && v.ty != nil {
			fix = append(fix, slotSrc{kind: 'v', val: tv(v.t), ty: v.ty, name: n})
		}
	}
	seenT := map[*Term]bool{}
	for _, f := range fix {
		if f.kind == 'v' {
			seenT[f.val.t] = true
		}
	}
	var blocks []*ssa.BasicBlock
	for b := range lc.body {
		blocks = append(blocks, b)
	}
	sort.Slice(blocks, func(i, j int) bool { return blocks[i].Index < blocks[j].Index })
	addLive := func(f *Frame, v ssa.Value) {
		if vv, ok := f.env[v]; ok && vv.t != nil && vv.t.kind != 'i' && !seenT[vv.t] {
			seenT[vv.t] = true
			fix = append(fix, slotSrc{kind: 'v', val: vv, ty: substType(v.Type(), f.sigma), name: v.Name()})
		}
	}
	for _, b := range blocks {
		for _, in := range b.Instrs {
			for _, op := range in.Operands(nil) {
				v := *op
				if v == nil {
					continue
				}
				if ins, ok := v.(ssa.Instruction); ok && lc.body[ins.Block()] {
					continue
				}
				addLive(fr, v)
			}
		}
	}
	// values of enclosing frames and loops (phis of enclosing loops)
	for _, l := range st.loops {
		for p, t := range l.phis {
			if !seenT[t] {
				seenT[t] = true
				fix = append(fix, slotSrc{kind: 'v', val: tv(t), ty: substType(p.Type(), frameSigma(st, l.frame)), name: "outer-" + p.Comment})
			}
		}
	}
	lc.mut, lc.fix = mut, fix
	// map iterators
	tctx := x.ctx(st)
	// user templates
	inst := func(cl *Clause, bound bool) {
		tys := make([]types.Type, len(cl.slots))
		for i, s := range cl.slots {
			t, err := safeType(tctx, s.typ)
			if err != nil {
				return
			}
			tys[i] = t
		}
		asg := map[string]slotSrc{}
		n := 0
		var rec func(i int, desc string)
		rec = func(i int, desc string) {
			if n > 150 {
				return
			}
			if i == len(cl.slots) {
				n++
				cp := map[string]slotSrc{}
				for k, v := range asg {
					cp[k] = v
				}
				x.mkCand(lc, cl.label+desc, &candDef{cl: cl, slots: cp, bound: bound})
				return
			}
			s := cl.slots[i]
			pool := mut
			if cl.fixed[s.name] {
				pool = append(append([]slotSrc{}, mut...), fix...)
			}
			for _, src := range pool {
				if !sameSpecType(src.ty, tys[i]) {
					continue
				}
				asg[s.name] = src
				rec(i+1, desc+" ["+s.name+"="+src.name+"]")
			}
			delete(asg, s.name)
		}
		rec(0, "")
	}
	for _, cl := range x.c.loopInv {
		inst(cl, false)
	}
	for _, cl := range x.c.loopBound {
		inst(cl, true)
	}
	// automatic candidates
	var ints []slotSrc
	for _, m := range mut {
		m := m
		if sortOf(m.ty) != SInt {
			continue
		}
		if _, ok := specialScalar(m.ty); ok {
			continue
		}
		ints = append(ints, m)
		x.mkCand(lc, "auto "+m.name+" == start+it", &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
			p, ok := m.getPre(cx, lc)
			if !ok {
				return nil
			}
			return Eq(cx.term(m.get(cx)), Add(p.t, cx.it))
		}})
		x.mkCand(lc, "auto "+m.name+" == start-it", &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
			p, ok := m.getPre(cx, lc)
			if !ok {
				return nil
			}
			return Eq(cx.term(m.get(cx)), Sub(p.t, cx.it))
		}})
		for _, lo := range []int64{0, -1, 1} {
			lo := lo
			x.mkCand(lc, fmt.Sprintf("auto %s >= %d", m.name, lo), &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
				return Le(IntLit(lo), cx.term(m.get(cx)))
			}})
		}
		x.mkCand(lc, "auto "+m.name+" <= 0", &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
			return Le(cx.term(m.get(cx)), IntLit(0))
		}})
		x.mkCand(lc, "auto "+m.name+" >= start", &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
			p, ok := m.getPre(cx, lc)
			if !ok {
				return nil
			}
			return Le(p.t, cx.term(m.get(cx)))
		}})
		x.mkCand(lc, "auto "+m.name+" <= start", &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
			p, ok := m.getPre(cx, lc)
			if !ok {
				return nil
			}
			return Le(cx.term(m.get(cx)), p.t)
		}})
	}
	maxz := func(t *Term) *Term { return Ite(Le(IntLit(0), t), t, IntLit(0)) }
	// termination bounds
	var fixInts []*Term
	for _, f := range fix {
		if f.ty == nil {
			continue
		}
		switch {
		case sortOf2(f.ty) == SInt:
			sv, ok := f.getPre(tctx, lc)
			if ok {
				fixInts = append(fixInts, sv.t)
			}
		case sortOf2(f.ty) == "Slice":
			sv, ok := f.getPre(tctx, lc)
			if ok {
				fixInts = append(fixInts, Sel(sliceDT, 2, sv.t))
			}
		}
	}
	for _, m := range ints {
		m := m
		x.mkCand(lc, "bound "+m.name, &candDef{bound: true, auto: func(cx *evalCtx, lc *LoopCtx) *Term {
			p, ok := m.getPre(cx, lc)
			if !ok {
				return nil
			}
			return Le(cx.it, Add(maxz(p.t), IntLit(1)))
		}})
		x.mkCand(lc, "bound -"+m.name, &candDef{bound: true, auto: func(cx *evalCtx, lc *LoopCtx) *Term {
			p, ok := m.getPre(cx, lc)
			if !ok {
				return nil
			}
			return Le(cx.it, Add(maxz(Sub(IntLit(0), p.t)), IntLit(1)))
		}})
		for k, n := range fixInts {
			if k > 10 {
				break
			}
			n := n
			x.mkCand(lc, fmt.Sprintf("bound %s..%d", m.name, k), &candDef{bound: true, auto: func(cx *evalCtx, lc *LoopCtx) *Term {
				p, ok := m.getPre(cx, lc)
				if !ok {
					return nil
				}
				return Le(cx.it, Add(maxz(Sub(n, p.t)), IntLit(1)))
			}})
			x.mkCand(lc, fmt.Sprintf("range %s..%d", m.name, k), &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
				return Le(cx.term(m.get(cx)), n)
			}})
			x.mkCand(lc, fmt.Sprintf("range %s>=%d", m.name, k), &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
				return Le(n, cx.term(m.get(cx)))
			}})
			x.mkCand(lc, fmt.Sprintf("range %s<%d", m.name, k), &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
				return Lt(cx.term(m.get(cx)), n)
			}})
		}
	}
	// interval loops: two int variables closing in on each other
	for i, a := range ints {
		for j, b := range ints {
			if i == j {
				continue
			}
			a, b := a, b
			x.mkCand(lc, "auto "+a.name+" <= "+b.name, &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
				return Le(cx.term(a.get(cx)), cx.term(b.get(cx)))
			}})
			x.mkCand(lc, "bound-gap "+b.name+"-"+a.name, &candDef{bound: true, auto: func(cx *evalCtx, lc *LoopCtx) *Term {
				pa, ok1 := a.getPre(cx, lc)
				pb, ok2 := b.getPre(cx, lc)
				if !ok1 || !ok2 {
					return nil
				}
				return And(Le(Sub(cx.term(b.get(cx)), cx.term(a.get(cx))), Sub(Sub(pb.t, pa.t), cx.it)), Le(cx.it, Add(maxz(Sub(pb.t, pa.t)), IntLit(1))))
			}})
		}
	}
	if x.c.conc != nil {
		x.concCands(lc)
	}
	// frames for modified heaps
	for _, name := range sortedKeys(ms) {
		if x.shNames[name] {
			continue // others change it
		}
		if strings.HasPrefix(name, "cell:") || strings.HasPrefix(name, "V:") || strings.HasPrefix(name, "log:") || name == allocHeap || name == "clock" {
			continue
		}
		name := name
		h := x.init[name]
		if h == nil {
			if so, ok := x.heapSorts[name]; ok {
				h = x.initHeap(name, so)
			}
		}
		if h == nil {
			continue
		}
		so := h.sort
		if !strings.HasPrefix(string(h.sort), "(Array Ref ") {
			for _, m := range cmods {
				if m := m; m.name == name && m.scoped && len(m.refs) > 0 {
					x.mkCand(lc, "frame of the contract "+name, &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
						return m.unchangedOutside(cx.x.entry.alloc(), cx.x.entry.get(name, so), cx.cur.get(name, so), true)
					}})
				}
			}
			continue
		}
		x.mkCand(lc, "frame since entry "+name, &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
			r := NamedBVar("r!f", SRef)
			cur := cx.cur.get(name, so)
			return Forall([]*Term{r}, [][]*Term{{Select(cur, r)}}, Imp(And(Select(cx.x.entry.alloc(), r), rightType(name, r)), Eq(Select(cur, r), Select(cx.x.entry.get(name, so), r))))
		}})
		x.mkCand(lc, "frame since loop "+name, &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
			r := NamedBVar("r!f", SRef)
			cur := cx.cur.get(name, so)
			return Forall([]*Term{r}, [][]*Term{{Select(cur, r)}}, Imp(And(Select(lc.pre.alloc(), r), rightType(name, r)), Eq(Select(cur, r), Select(lc.pre.get(name, so), r))))
		}})
		for _, m := range cmods {
			if m := m; m.name == name && m.scoped && len(m.refs) > 0 {
				x.mkCand(lc, "frame of the contract "+name, &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
					return m.unchangedOutside(cx.x.entry.alloc(), cx.x.entry.get(name, so), cx.cur.get(name, so), true)
				}})
			}
		}
		// all but one object
		k := 0
		for _, f := range append(append([]slotSrc{}, fix...), mut...) {
			f := f
			if f.ty == nil || k > 6 {
				continue
			}
			s := sortOf2(f.ty)
			if s != SRef && s != "Slice" {
				continue
			}
			if s == SRef {
				if _, isP := under(f.ty).(*types.Pointer); !isP && !isMapType(f.ty) {
					continue
				}
			}
			k++
			x.mkCand(lc, "frame since entry except "+f.name+" "+name, &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
				r := NamedBVar("r!f", SRef)
				cur := cx.cur.get(name, so)
				p, ok := f.getPre(cx, lc)
				if !ok {
					return nil
				}
				ref := p.t
				if ref.sort == "Slice" {
					ref = Sel(sliceDT, 0, ref)
				}
				return Forall([]*Term{r}, [][]*Term{{Select(cur, r)}}, Imp(And(Select(cx.x.entry.alloc(), r), rightType(name, r), Not(Eq(r, ref))), Eq(Select(cur, r), Select(cx.x.entry.get(name, so), r))))
			}})
		}
	}
	// iterator loops: visited keys were in the domain at the start
	for idx := range lc.iters {
		idx := idx
		x.mkCand(lc, fmt.Sprintf("visited keys are keys of the map #%d", idx), &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
			it := cx.cur.iters[lc.iters[idx]]
			if it == nil {
				return nil
			}
			vis := cx.cur.heap["V:"+lc.iters[idx]]
			k, _ := arrParts(vis.sort)
			q := NamedBVar("k!v", k)
			return Forall([]*Term{q}, [][]*Term{{Select(vis, q)}}, Imp(Select(vis, q), Select(it.start, q)))
		}})
		x.mkCand(lc, fmt.Sprintf("it counts visited keys #%d", idx), &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
			vis := cx.cur.heap["V:"+lc.iters[idx]]
			if vis == nil {
				return nil
			}
			return Eq(Card(vis), cx.it)
		}})
	}
}

// loopGhostUpdate binds the slots of a loop ghost clause to the first loop
// variable of the type and performs the update.
func (x *Exec) loopGhostUpdate(st *State, g *Clause, c *evalCtx, lc *LoopCtx) error {
	cc := *c
	cc.tenv, cc.targs, cc.pkg = x.tenv, x.targs, x.pkgOf(x.fn)
	if len(g.slots) == 0 {
		return x.ghostUpdate(st, g, &cc)
	}
	env := map[string]SV{}
	for _, s := range g.slots {
		ty, err := safeType(&cc, s.typ)
		if err != nil {
			return err
		}
		pool := lc.mut
		if g.fixed[s.name] {
			pool = append(append([]slotSrc{}, lc.mut...), lc.fix...)
		}
		ok := false
		for _, src := range pool {
			if sameSpecType(src.ty, ty) {
				env[s.name] = src.get(&cc)
				if h := lc.headVal(&cc, src); h != nil {
					env[s.name+"'"] = *h
				}
				ok = true
				break
			}
		}
		if !ok {
			return fmt.Errorf("no loop variable for %s", s.name)
		}
	}
	return x.ghostUpdate(st, g, cc.with(env))
}

// headVal: the value the variable had at the head of the current iteration.
func (lc *LoopCtx) headVal(cx *evalCtx, s slotSrc) *SV {
	switch s.kind {
	case 'p':
		if t := lc.phis[s.phi]; t != nil {
			return &SV{t: t, ty: s.ty}
		}
	case 'c':
		if v, ok := lc.head.cells[s.cell]; ok && v.t != nil {
			return &SV{t: v.t, ty: s.ty}
		}
	}
	return nil
}

func sortOf2(t types.Type) (s Sort) {
	defer func() {
		if recover() != nil {
			s = ""
		}
	}()
	return sortOf(t)
}

func frameSigma(st *State, id string) Sigma {
	for _, f := range st.frames {
		if f.id == id {
			return f.sigma
		}
	}
	return nil
}

func safeType(c *evalCtx, te *TypeExpr) (t types.Type, err error) {
	defer func() {
		if r := recover(); r != nil {
			if e, ok := r.(evalErr); ok {
				err = fmt.Errorf("%s", e.msg)
				return
			}
			panic(r)
		}
	}()
	return c.typ(te), nil
}

func sameSpecType(a, b types.Type) bool {
	if a == nil || b == nil {
		return false
	}
	if types.Identical(a, b) {
		return true
	}
	// integers of any width and named versions match int
	if b == tyInt {
		bb, ok := under(a).(*types.Basic)
		return ok && bb.Info()&types.IsInteger != 0
	}
	return typeStr(a) == typeStr(b)
}

func (x *Exec) candTerm(c *Cand, cx *evalCtx, lc *LoopCtx) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case evalErr:
				err = fmt.Errorf("%s", r.msg)
			case unsupportedErr:
				err = r
			default:
				panic(r)
			}
		}
	}()
	d := lc.defs[c]
	if cx.tenv == nil {
		cx.tenv, cx.targs, cx.pkg = x.tenv, x.targs, x.pkgOf(x.fn)
	}
	if d.auto != nil {
		t := d.auto(cx, lc)
		if t == nil {
			return nil, fmt.Errorf("not applicable")
		}
		return t, nil
	}
	env := map[string]SV{}
	for n, s := range d.slots {
		env[n] = s.get(cx)
		if p, ok := s.getPre(cx, lc); ok {
			env[n+"0"] = p
		}
	}
	if d.bound {
		n := cx.with(env)
		for k := range d.slots {
			if p, ok := env[k+"0"]; ok {
				n.env[k] = p
			}
		}
		n.cur = lc.pre
		v := n.term(n.eval(d.cl.e))
		return Le(cx.it, v), nil
	}
	n := cx.with(env)
	return n.term(n.eval(d.cl.e)), nil
}
