package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- calls

func (x *Exec) call(st *State, in *ssa.Call, common *ssa.CallCommon) []*State {
	if common.IsInvoke() {
		return x.invokeIface(st, in, common)
	}
	if b, ok := common.Value.(*ssa.Builtin); ok {
		var args []Value
		for _, a := range common.Args {
			args = append(args, x.val(st, a))
		}
		return x.builtinCall(st, in, common, b.Name(), args)
	}
	fnv := x.val(st, common.Value)
	var args []Value
	for _, a := range common.Args {
		args = append(args, x.val(st, a))
	}
	return x.invokeValue(st, in, common, fnv, args, 0)
}

func (x *Exec) setRes(st *State, in ssa.Value, v Value) {
	if in != nil {
		st.top().env[in] = v
	}
}

func (x *Exec) invokeValue(st *State, in ssa.Value, common *ssa.CallCommon, fnv Value, args []Value, kind byte) []*State {
	if b, ok := common.Value.(*ssa.Builtin); ok {
		return x.builtinCall(st, nil, common, b.Name(), args)
	}
	if fnv.clo != nil {
		return x.callStatic(st, in, common, fnv.clo, args, kind)
	}
	if fnv.t != nil {
		clo := x.cloOf[fnv.t]
		if clo == nil {
			clo = x.cloOf[x.lookThrough(fnv.t, 0)]
		}
		if clo != nil {
			return x.callStatic(st, in, common, clo, args, kind)
		}
		return x.callUnknown(st, in, common, fnv.t, args)
	}
	panic(unsupported("call of unknown value"))
}

// callUnknown models a call of a function value the code received from its user.
func (x *Exec) callUnknown(st *State, in ssa.Value, common *ssa.CallCommon, f *Term, args []Value) []*State {
	sg := st.top().sigma
	sig := substType(under(common.Value.Type()), sg).(*types.Signature)
	x.safety(st, "call of nil function", Not(Eq(f, nilFn)), common.Pos())
	for _, a := range args {
		x.publishV(st, a)
	}
	cb := x.cbs[f]
	if n, ok := types.Unalias(substType(common.Value.Type(), sg)).(*types.Named); ok && cb == nil && n.Obj().Pkg() != nil {
		if c := x.w.spec.contracts[n.Obj().Pkg().Name()+"."+n.Obj().Name()]; c != nil && c.extern {
			return x.applyFnType(st, in, common, c, f, n, sig, args)
		}
	}
	var ts []*Term
	for i, a := range args {
		ts = append(ts, x.term(st, a, sig.Params().At(i).Type()))
	}
	if cb == nil || cb.mode == "pure" {
		x.trusted["function values supplied by the caller are deterministic, side-effect free and do not panic: "+x.fnDesc(f)] = true
		res := make([]Value, sig.Results().Len())
		for i := range res {
			rt := sig.Results().At(i).Type()
			nm := f
			var t *Term
			if i == 0 {
				t = appFn(nm, sortOf(rt), ts...)
			} else {
				t = App(fmt.Sprintf("app%d:%s", i, sortOf(rt)), sortOf(rt), append([]*Term{nm}, ts...)...)
			}
			st.typeFacts(t, rt)
			res[i] = tv(t)
		}
		x.setRes(st, in, packResults(res))
		return one(st)
	}
	// trace mode
	x.trusted["callback "+cb.param+" does not modify the container while it is being called"] = true
	tn := traceName(f)
	x.onCallback(st, cb, common.Pos())
	n := st.get(tn+".n", SInt)
	for i, t := range ts {
		an := fmt.Sprintf("%s.a%d", tn, i)
		st.set(an, Store(st.get(an, ArrSort(SInt, t.sort)), n, t))
	}
	if cb.timed {
		old := st.get("clock", SInt)
		t := Fresh("clock", SInt)
		st.heap["clock"] = t
		st.assume(Le(old, t))
		st.set(tn+".t", Store(st.get(tn+".t", ArrSort(SInt, SInt)), n, t))
	}
	var out []*State
	if cb.mayPanic {
		o := st.clone()
		o.set(tn+".p", Store(o.get(tn+".p", ArrSort(SInt, SBool)), n, tTrue))
		o.set(tn+".n", Add(n, IntLit(1)))
		o.notes = append(o.notes, cb.param+" panics")
		x.afterCallback(o, cb, common.Pos())
		out = append(out, x.unwind(o)...)
		st.set(tn+".p", Store(st.get(tn+".p", ArrSort(SInt, SBool)), n, tFalse))
	}
	res := make([]Value, sig.Results().Len())
	for i := range res {
		rt := sig.Results().At(i).Type()
		t := Fresh("cbres:"+cb.param, sortOf(rt))
		st.typeFacts(t, rt)
		res[i] = tv(t)
		rn := fmt.Sprintf("%s.r%d", tn, i)
		st.set(rn, Store(st.get(rn, ArrSort(SInt, t.sort)), n, t))
	}
	st.set(tn+".n", Add(n, IntLit(1)))
	x.afterCallback(st, cb, common.Pos())
	x.setRes(st, in, packResults(res))
	return append([]*State{st}, out...)
}

func (x *Exec) fnDesc(f *Term) string {
	if n, ok := x.fnNames[f]; ok {
		return n
	}
	s := f.String()
	if i := strings.Index(s, "F:"); i >= 0 {
		s = s[i+2:]
		if j := strings.IndexAny(s, "|@~ "); j >= 0 {
			s = s[:j]
		}
	}
	if len(s) > 60 {
		s = s[:60]
	}
	return s
}

// ---------------------------------------------------------------- static calls

func hasLoop(x *Exec, f *ssa.Function) bool { return len(x.loopsOf(f)) > 0 }

// selfRecursive: f may call itself (directly or through functions of its package without contracts)
func (x *Exec) reaches(f, target *ssa.Function, seen map[*ssa.Function]bool) bool {
	if seen[f] {
		return false
	}
	seen[f] = true
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if c, ok := in.(ssa.CallInstruction); ok {
				if cal := c.Common().StaticCallee(); cal != nil {
					if o := cal.Origin(); o != nil {
						cal = o
					}
					if cal == target {
						return true
					}
					if cal.Pkg != nil && f.Pkg == cal.Pkg && x.reaches(cal, target, seen) {
						return true
					}
				}
			}
		}
	}
	for _, a := range f.AnonFuncs {
		if x.reaches(a, target, seen) {
			return true
		}
	}
	return false
}

func (x *Exec) recursive(f *ssa.Function) bool {
	if r, ok := x.recCache[f]; ok {
		return r
	}
	r := x.reaches(f, f, map[*ssa.Function]bool{})
	x.recCache[f] = r
	return r
}

func (x *Exec) callStatic(st *State, in ssa.Value, common *ssa.CallCommon, clo *Closure, args []Value, kind byte) []*State {
	fn := clo.fn
	key := funcKey(fn)
	if r, ok := x.intrinsic(st, in, common, key, fn, clo, args); ok {
		return r
	}
	c := x.w.spec.contracts[key]
	if c != nil && !c.extern && internal(key) && len(c.params) != len(args) {
		c = nil
	}
	useC := false
	if c != nil && len(clo.binds) == 0 {
		switch {
		case c.extern, c.opaque, x.c.useC[key]:
			useC = true
		case x.c.inl[key]:
		case fn.Pkg != x.fn.Pkg:
			useC = true
		case x.recursive(fn):
			useC = true
		case hasLoop(x, fn):
			useC = true
		}
		if useC && !c.extern && !x.recursive(fn) && !c.opaque {
			// a callback given as a literal closure can only be followed by inlining
			for i, a := range args {
				if a.clo != nil && i < len(c.params) {
					if cb := c.callbacks[c.params[i]]; cb == nil || cb.mode != "pure" {
						useC = false
					}
				}
			}
		}
	}
	if useC {
		return x.applyContract(st, in, common, c, fn, clo.sigma, args)
	}
	if len(fn.Blocks) == 0 {
		return x.externCall(st, in, common, key, fn, clo, args)
	}
	if x.pureExtern(fn, key) {
		return x.externCall(st, in, common, key, fn, clo, args)
	}
	for _, f := range st.frames {
		if f.fn == fn && fn.Parent() == nil {
			panic(unsupported("recursive function without contract: " + key))
		}
	}
	if len(st.frames) > 24 {
		panic(unsupported("inlining depth"))
	}
	x.inlined[key] = true
	id := st.top().id + ">"
	if in != nil {
		id += in.Name()
	} else {
		id += fmt.Sprintf("d%d", len(st.top().defers))
	}
	id += ":" + fn.Name()
	nf := &Frame{fn: fn, sigma: clo.sigma, env: map[ssa.Value]Value{}, call: in, id: id, kind: kind}
	if len(args) != len(fn.Params) {
		panic(unsupported(fmt.Sprintf("argument count for %s", key)))
	}
	for i, p := range fn.Params {
		nf.env[p] = args[i]
	}
	for i, fv := range fn.FreeVars {
		nf.env[fv] = clo.binds[i]
	}
	nf.block = fn.Blocks[0]
	st.frames = append(st.frames, nf)
	return one(st)
}

func (x *Exec) tenvFor(c *Contract, fn *ssa.Function, sigma Sigma) (map[string]types.Type, []types.Type) {
	tenv := map[string]types.Type{}
	var targs []types.Type
	tps := fn.TypeParams()
	if tps != nil {
		for i := 0; i < tps.Len(); i++ {
			var t types.Type = tps.At(i)
			if r, ok := sigma[tps.At(i)]; ok {
				t = r
			}
			targs = append(targs, t)
			if i < len(c.tparams) {
				tenv[c.tparams[i]] = t
			}
		}
	}
	return tenv, targs
}

// applyContract replaces a call by the callee's contract.
func (x *Exec) applyContract(st *State, in ssa.Value, common *ssa.CallCommon, c *Contract, fn *ssa.Function, sigma Sigma, args []Value) []*State {
	x.used[c.key] = true
	for _, a := range args {
		x.publishV(st, a)
	}
	if c.extern {
		x.trusted["assumed contract of "+c.key] = true
	}
	tenv, targs := x.tenvFor(c, fn, sigma)
	sig := fn.Signature
	var ptys []types.Type
	if sig.Recv() != nil {
		ptys = append(ptys, substType(sig.Recv().Type(), sigma))
	}
	for i := 0; i < sig.Params().Len(); i++ {
		ptys = append(ptys, substType(sig.Params().At(i).Type(), sigma))
	}
	return x.applySig(st, in, common, c, ptys, substType(sig.Results(), sigma).(*types.Tuple), x.pkgOf(fn), tenv, targs, args)
}

func (x *Exec) pkgOf(fn *ssa.Function) *types.Package {
	if fn.Pkg != nil {
		return fn.Pkg.Pkg
	}
	if fn.Object() != nil {
		return fn.Object().Pkg()
	}
	return nil
}

func (x *Exec) applySig(st *State, in ssa.Value, common *ssa.CallCommon, c *Contract, ptys []types.Type, rtys *types.Tuple, pkg *types.Package, tenv map[string]types.Type, targs []types.Type, args []Value) []*State {
	env := map[string]SV{}
	if len(c.params) != len(args) {
		panic(unsupported(fmt.Sprintf("contract %s has %d parameters, code has %d", c.key, len(c.params), len(args))))
	}
	for i, a := range args {
		t := x.term(st, a, ptys[i])
		if t.sort == SFn {
			x.fnNames[t] = c.params[i]
		}
		env[c.params[i]] = SV{t: t, ty: ptys[i]}
	}
	if x.self != nil {
		env["self"] = *x.self
	}
	// opaque externs may mention ghost variables of their own
	pre := st.clone()
	ctx := &evalCtx{x: x, cur: st, old: pre, env: env, tenv: tenv, targs: targs, pkg: pkg}
	for _, r := range c.requires {
		t, err := ctx.Bool(r.e)
		if err != nil {
			panic(unsupported("precondition of " + c.key + ": " + err.Error()))
		}
		x.obligeSplit(st, "pre", c.key+" requires "+r.label, t, nil, x.w.pos(common.Pos()))
		st.assume(t)
	}
	if c.key == x.c.key && c.decreases != nil {
		t, err := ctx.Val(c.decreases.e)
		if err != nil {
			panic(unsupported(err.Error()))
		}
		m := ctx.term(t)
		x.oblige(st, "decreases", "recursive call decreases "+c.decreases.label, And(Le(IntLit(0), m), Lt(m, x.measure)), nil, x.w.pos(common.Pos()))
	}
	if c.modAll {
		panic(unsupported("call of " + c.key + ", whose contract has no frame"))
	}
	mods, err := x.modHeaps(ctx, c.modifies)
	if err != nil {
		panic(unsupported("modifies of " + c.key + ": " + err.Error()))
	}
	preAlloc := st.alloc()
	if ty, ok := c.opts["noalloc"]; !ok || ty != "" {
		st.allocMono(preAlloc, st.havoc(allocHeap, allocSort))
		if ty != "" {
			st.assume(ctx.noAlloc(ty, preAlloc, st.alloc()))
		}
	}
	sort.SliceStable(mods, func(i, j int) bool {
		return strings.HasPrefix(mods[i].name, "MD:") && !strings.HasPrefix(mods[j].name, "MD:")
	})
	for _, m := range mods {
		old := st.get(m.name, m.sort)
		nw := st.havoc(m.name, m.sort)
		switch {
		case m.name == "clock", strings.HasPrefix(m.name, "T:") && strings.HasSuffix(m.name, ".n"):
			st.assume(Le(old, nw))
		case m.scoped:
			st.assume(m.unchangedOutside(preAlloc, old, nw, false))
		}
	}
	var res []Value
	for i := 0; i < rtys.Len(); i++ {
		rt := rtys.At(i).Type()
		t := Fresh("res:"+c.key, sortOf(rt))
		st.typeFacts(t, rt)
		res = append(res, tv(t))
		if i < len(c.results) {
			env[c.results[i]] = SV{t: t, ty: rt}
		}
	}
	for _, e := range c.ensures {
		t, err := ctx.Bool(e.e)
		if err != nil {
			panic(unsupported("postcondition of " + c.key + ": " + err.Error()))
		}
		st.assume(t)
	}
	x.setRes(st, in, packResults(res))
	return one(st)
}

func (x *Exec) safeHeaps(ctx *evalCtx, m string) (hs []heapRef, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case evalErr:
				err = fmt.Errorf("%s", r.msg)
			case perr:
				err = fmt.Errorf("%s", r.msg)
			case unsupportedErr:
				err = r
			default:
				panic(r)
			}
		}
	}()
	return x.resolveHeaps(ctx, m), nil
}

// ---------------------------------------------------------------- interface calls

func (x *Exec) invokeIface(st *State, in *ssa.Call, common *ssa.CallCommon) []*State {
	sg := st.top().sigma
	it := substType(common.Value.Type(), sg)
	recv := x.val(st, common.Value)
	var args []Value
	for _, a := range common.Args {
		args = append(args, x.val(st, a))
	}
	n, ok := types.Unalias(it).(*types.Named)
	if !ok {
		panic(unsupported("call through unnamed interface"))
	}
	rt := x.term(st, recv, it)
	x.safety(st, "nil interface", Not(Eq(rt, nilIface)), common.Pos())
	// statically known dynamic type
	if rt.kind == 'f' && strings.HasPrefix(rt.op, "iface:") {
		if dt, ok := x.ifaceTypes[rt.op]; ok {
			if f := x.methodOf(dt, common.Method); f != nil {
				fn, s2 := x.resolve(f, sg)
				// methods of instantiated types
				if nt := namedOf(dt); nt != nil && nt.TypeArgs() != nil && fn.TypeParams() != nil {
					s2 = Sigma{}
					for i := 0; i < fn.TypeParams().Len(); i++ {
						s2[fn.TypeParams().At(i)] = nt.TypeArgs().At(i)
					}
				}
				rv := tv(rt.args[0])
				if _, isPtr := fn.Signature.Recv().Type().(*types.Pointer); !isPtr {
					if p, ok := under(dt).(*types.Pointer); ok {
						rv = tv(st.loadObj(rt.args[0], p.Elem()))
					}
				}
				return x.callStatic(st, in, common, &Closure{fn: fn, sigma: s2}, append([]Value{rv}, args...), 0)
			}
		}
	}
	key := n.Obj().Pkg().Name() + "." + n.Obj().Name() + "." + common.Method.Name()
	c := x.w.spec.contracts[key]
	if c == nil && n.Obj().Pkg().Path() == "reflect" && common.Signature().Results().Len() == 1 {
		ts := []*Term{rt}
		for _, a := range args {
			ts = append(ts, x.term(st, a, nil))
		}
		x.trusted["package reflect is modelled by uninterpreted functions (reflect.Value.Equal is ==)"] = true
		res := common.Signature().Results().At(0).Type()
		r := App(key, sortOf(res), ts...)
		if r.sort == SIface {
			st.assume(Not(Eq(r, nilIface)))
		}
		st.typeFacts(r, res)
		x.setRes(st, in, tv(r))
		return one(st)
	}
	if c == nil {
		panic(unsupported("interface method without contract: " + key))
	}
	sig := substType(common.Method.Type(), sg).(*types.Signature)
	// type parameters of the interface
	tenv := map[string]types.Type{}
	var targs []types.Type
	isg := Sigma{}
	if n.TypeArgs() != nil {
		for i := 0; i < n.TypeArgs().Len(); i++ {
			targs = append(targs, n.TypeArgs().At(i))
			if i < len(c.tparams) {
				tenv[c.tparams[i]] = n.TypeArgs().At(i)
			}
			isg[n.Origin().TypeParams().At(i)] = n.TypeArgs().At(i)
		}
	}
	sig = substType(sig, isg).(*types.Signature)
	ptys := []types.Type{it}
	for i := 0; i < sig.Params().Len(); i++ {
		ptys = append(ptys, sig.Params().At(i).Type())
	}
	x.used[c.key] = true
	return x.applySig(st, in, common, c, ptys, sig.Results(), n.Obj().Pkg(), tenv, targs, append([]Value{tv(rt)}, args...))
}

// applyFnType applies the contract of a named function type.
func (x *Exec) applyFnType(st *State, in ssa.Value, common *ssa.CallCommon, c *Contract, f *Term, n *types.Named, sig *types.Signature, args []Value) []*State {
	tenv := map[string]types.Type{}
	var targs []types.Type
	if n.TypeArgs() != nil {
		for i := 0; i < n.TypeArgs().Len(); i++ {
			targs = append(targs, n.TypeArgs().At(i))
			if i < len(c.tparams) {
				tenv[c.tparams[i]] = n.TypeArgs().At(i)
			}
		}
	}
	var ptys []types.Type
	for i := 0; i < sig.Params().Len(); i++ {
		ptys = append(ptys, sig.Params().At(i).Type())
	}
	x.used[c.key] = true
	x.trusted["function values of type "+c.key+" satisfy its contract (the package's own constructors are verified against it)"] = true
	x.self = &SV{t: f, ty: n}
	defer func() { x.self = nil }()
	return x.applySig(st, in, common, c, ptys, sig.Results(), n.Obj().Pkg(), tenv, targs, args)
}

func namedOf(t types.Type) *types.Named {
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		t = p.Elem()
	}
	n, _ := types.Unalias(t).(*types.Named)
	return n
}

func (x *Exec) methodOf(t types.Type, m *types.Func) *ssa.Function {
	n := namedOf(t)
	if n == nil {
		return nil
	}
	o := n.Origin()
	for i := 0; i < o.NumMethods(); i++ {
		if o.Method(i).Name() == m.Name() {
			return x.w.prog.FuncValue(o.Method(i))
		}
	}
	return nil
}

// ---------------------------------------------------------------- closures as first-class values

func (x *Exec) closureTerm(st *State, clo *Closure) *Term {
	if clo.fnTerm != nil {
		return clo.fnTerm
	}
	sig := substType(clo.fn.Signature, clo.sigma).(*types.Signature)
	f := Fresh("fn:"+funcKey(clo.fn), SFn)
	clo.fnTerm = f
	x.cloOf[f] = clo
	st.assume(Not(Eq(f, nilFn)))
	if x.inSummary > 3 || sig.Results().Len() == 0 {
		return f
	}
	// summary: run the body on arbitrary arguments
	mark := symCount()
	sub := st.clone()
	base := sub.pc
	var args []Value
	var consts []*Term
	for i := 0; i < sig.Params().Len(); i++ {
		pt := sig.Params().At(i).Type()
		a := Fresh("sarg", sortOf(pt))
		consts = append(consts, a)
		args = append(args, tv(a))
	}
	mark2 := symCount()
	_ = mark
	saveC, saveF, saveLoops := x.collect, x.finals, sub.loops
	x.collect, x.finals = true, nil
	x.inSummary++
	_, stored := x.c.opts["storedclosures"]
	if stored {
		x.mute++
	}
	nf := &Frame{fn: clo.fn, sigma: clo.sigma, env: map[ssa.Value]Value{}, id: st.top().id + "$" + clo.fn.Name()}
	for i, p := range clo.fn.Params {
		nf.env[p] = args[i]
	}
	for i, fv := range clo.fn.FreeVars {
		nf.env[fv] = clo.binds[i]
	}
	nf.block = clo.fn.Blocks[0]
	sub.frames = []*Frame{nf}
	sub.loops = nil
	_ = saveLoops
	sub.notes = append(sub.notes, "in closure "+funcKey(clo.fn))
	x.drain([]*State{sub})
	fin := x.finals
	x.collect, x.finals = saveC, saveF
	x.inSummary--
	if stored {
		x.mute--
	}
	if x.restart {
		return f
	}
	ren := map[*Term]*Term{}
	var bvs []*Term
	for i, c := range consts {
		b := NamedBVar(fmt.Sprintf("a%d!sum", i), c.sort)
		ren[c] = b
		bvs = append(bvs, b)
	}
	for i := 0; i < sig.Results().Len() && i < 1; i++ {
		so := sortOf(sig.Results().At(i).Type())
		for _, fs := range fin {
			ok := true
			for n, t := range fs.st.heap {
				o, had := st.heap[n]
				if !had {
					o = x.init[n]
				}
				if o != t {
					ok = false
				}
			}
			if !ok {
				x.note("closure " + funcKey(clo.fn) + " has side effects: not summarised")
				continue
			}
			var cond []*Term
			for p := fs.st.pc; p != nil && p != base; p = p.prev {
				cond = append(cond, p.t)
			}
			res := x.term(fs.st, fs.res[i], nil)
			cond, res = onePoint(cond, res, mark2, consts)
			body := Imp(And(cond...), Eq(appFn(f, so, consts...), res))
			if mentionsAfter(body, mark2, consts) {
				x.note("closure " + funcKey(clo.fn) + " is not a function of its arguments: not summarised")
				continue
			}
			body = Subst(body, ren)
			st.assume(Forall(bvs, [][]*Term{{appFn(f, so, bvs...)}}, body))
		}
	}
	return f
}

// onePoint eliminates constants introduced by the summarised body that the
// path defines by an equation
func onePoint(cond []*Term, res *Term, mark int, except []*Term) ([]*Term, *Term) {
	for round := 0; round < 50; round++ {
		found := false
		for i, c := range cond {
			if c.kind != 'b' || c.op != "=" || len(c.args) != 2 {
				continue
			}
			for k := 0; k < 2; k++ {
				v, d := c.args[k], c.args[1-k]
				if v.kind != 'f' || len(v.args) > 0 || !mentionsAfter(v, mark, except) || occurs(v, d) {
					continue
				}
				m := map[*Term]*Term{v: d}
				var nc []*Term
				for j, o := range cond {
					if j != i {
						nc = append(nc, Subst(o, m))
					}
				}
				cond, res = nc, Subst(res, m)
				found = true
				break
			}
			if found {
				break
			}
		}
		if !found {
			break
		}
	}
	return cond, res
}

func occurs(v, t *Term) bool {
	if v == t {
		return true
	}
	for _, a := range t.args {
		if occurs(v, a) {
			return true
		}
	}
	return false
}

func (x *Exec) note(s string) { x.notesum[s] = true }

func symCount() int { return len(symOrder) }

func mentionsAfter(t *Term, mark int, except []*Term) bool {
	ex := map[string]bool{}
	for _, c := range except {
		ex[c.op] = true
	}
	late := map[string]bool{}
	for _, s := range symOrder[mark:] {
		if len(symDecl[s].args) == 0 && strings.Contains(s, "~") {
			late[s] = true
		}
	}
	seen := map[*Term]bool{}
	var w func(t *Term) bool
	w = func(t *Term) bool {
		if seen[t] {
			return false
		}
		seen[t] = true
		if t.kind == 'f' && late[t.op] && !ex[t.op] {
			return true
		}
		for _, a := range t.args {
			if w(a) {
				return true
			}
		}
		return false
	}
	return w(t)
}

// ---------------------------------------------------------------- builtins

func (x *Exec) builtinCall(st *State, in *ssa.Call, common *ssa.CallCommon, name string, args []Value) []*State {
	var iv ssa.Value
	if in != nil {
		iv = in
	}
	ty := func(i int) types.Type { return substType(common.Args[i].Type(), st.top().sigma) }
	set := func(t *Term) []*State {
		x.setRes(st, iv, tv(t))
		return one(st)
	}
	switch name {
	case "len", "cap":
		t := x.term(st, args[0], ty(0))
		if isMapType(ty(0)) {
			x.guard(st, t, "map", false, common.Pos())
			dn, ds := mapDomHeap(ty(0))
			c := Card(Select(st.get(dn, ds), t))
			st.assume(Le(IntLit(0), c))
			return set(c)
		}
		if t.sort == "Slice" {
			if name == "len" {
				return set(Sel(sliceDT, 2, t))
			}
			return set(Sel(sliceDT, 3, t))
		}
		if t.sort == SStr {
			r := App("strlen", SInt, t)
			st.assume(Le(IntLit(0), r))
			st.assume(Eq(Eq(r, IntLit(0)), Eq(t, emptyStr)))
			return set(r)
		}
		panic(unsupported("len of " + string(t.sort)))
	case "append":
		return x.appendCall(st, iv, ty(0), ty(1), args, common.Pos())
	case "copy":
		return x.copyCall(st, iv, ty(0), args)
	case "delete":
		m := x.term(st, args[0], ty(0))
		kt, _ := mapKV(ty(0))
		k := x.term(st, args[1], kt)
		x.guard(st, m, "map", true, common.Pos())
		dn, ds := mapDomHeap(ty(0))
		h := st.get(dn, ds)
		st.set(dn, Store(h, m, Store(Select(h, m), k, tFalse)))
		return one(st)
	case "clear":
		t := x.term(st, args[0], ty(0))
		if isMapType(ty(0)) {
			x.guard(st, t, "map", true, common.Pos())
			dn, ds := mapDomHeap(ty(0))
			_, row := arrParts(ds)
			st.set(dn, Store(st.get(dn, ds), t, ConstArr(row, tFalse)))
			return one(st)
		}
		el := sliceElem(ty(0))
		arr, off, ln, _ := sl(t)
		x.fillRow(st, el, arr, off, ln, func(i *Term) *Term { return zeroOf(el) })
		return one(st)
	case "min", "max":
		r := x.term(st, args[0], ty(0))
		for i := 1; i < len(args); i++ {
			a := x.term(st, args[i], ty(i))
			if name == "min" {
				r = Ite(ltOf(ty(i), a, r), a, r)
			} else {
				r = Ite(ltOf(ty(i), r, a), a, r)
			}
		}
		return set(r)
	case "ssa:wrapnilchk":
		x.setRes(st, iv, args[0])
		return one(st)
	case "print", "println":
		return one(st)
	case "recover":
		x.setRes(st, iv, tv(nilIface))
		return one(st)
	}
	panic(unsupported("builtin " + name))
}

// fillRow overwrites array cells off..off+n-1 of object arr.
func (x *Exec) fillRow(st *State, el types.Type, arr, off, n *Term, f func(i *Term) *Term) {
	an, as := arrHeap(el)
	h := st.get(an, as)
	row := Select(h, arr)
	if k, ok := n.isInt(); ok && k <= 4 {
		nr := row
		for i := int64(0); i < k; i++ {
			nr = Store(nr, Add(off, IntLit(i)), f(IntLit(i)))
		}
		st.set(an, Store(h, arr, nr))
		return
	}
	nr := Fresh("row", row.sort)
	i := NamedBVar("i!row", SInt)
	body := Eq(Select(nr, i), Ite(And(Le(off, i), Lt(i, Add(off, n))), f(Sub(i, off)), Select(row, i)))
	pats := [][]*Term{{Select(nr, i)}, {Select(row, i)}}
	st.assume(Forall([]*Term{i}, pats, body))
	st.set(an, Store(h, arr, nr))
}

func (x *Exec) appendCall(st *State, in ssa.Value, sty, ety types.Type, args []Value, pos token.Pos) []*State {
	s := x.term(st, args[0], sty)
	t := x.term(st, args[1], ety)
	if t.sort != "Slice" {
		panic(unsupported("append of " + string(t.sort)))
	}
	el := sliceElem(sty)
	an, as := arrHeap(el)
	arr, off, ln, cp := sl(s)
	tarr, toff, tln, _ := sl(t)
	n := Add(ln, tln)
	th := st.get(an, as)
	src := func(i *Term) *Term { return Select(Select(th, tarr), Add(toff, i)) }
	// reallocation
	realloc := func(o *State) {
		r := Fresh("arr", SRef)
		o.freshRef(r, nil, "A:"+typeStr(el))
		c := Fresh("cap", SInt)
		o.assume(Le(n, c))
		nr := Fresh("row", ArrSort(SInt, sortOf(el)))
		i := NamedBVar("i!row", SInt)
		h := o.get(an, as)
		old := Select(Select(h, arr), Add(off, i))
		if ln == IntLit(0) {
			if k, ok := tln.isInt(); ok && k <= 4 {
				for j := int64(0); j < k; j++ {
					o.assume(Eq(Select(nr, IntLit(j)), src(IntLit(j))))
				}
			} else {
				o.assume(Forall([]*Term{i}, [][]*Term{{Select(nr, i)}}, Imp(And(Le(IntLit(0), i), Lt(i, tln)), Eq(Select(nr, i), src(i)))))
			}
		} else {
			pats := [][]*Term{{Select(nr, i)}}
			if off == IntLit(0) {
				pats = append(pats, []*Term{Select(Select(h, arr), i)})
			}
			o.assume(Forall([]*Term{i}, pats, Imp(And(Le(IntLit(0), i), Lt(i, ln)), Eq(Select(nr, i), old))))
			if k, ok := tln.isInt(); ok && k <= 4 {
				for j := int64(0); j < k; j++ {
					o.assume(Eq(Select(nr, Add(ln, IntLit(j))), src(IntLit(j))))
				}
			} else {
				o.assume(Forall([]*Term{i}, [][]*Term{{Select(nr, i)}}, Imp(And(Le(ln, i), Lt(i, n)), Eq(Select(nr, i), src(Sub(i, ln))))))
			}
		}
		o.set(an, Store(h, r, nr))
		x.setResTop(o, in, tv(Mk(sliceDT, r, IntLit(0), n, c)))
	}
	inplace := func(o *State) {
		x.fillRow(o, el, arr, Add(off, ln), tln, src)
		x.setResTop(o, in, tv(Mk(sliceDT, arr, off, n, cp)))
	}
	fits := Le(n, cp)
	if ln == IntLit(0) && cp == IntLit(0) {
		fits = Le(tln, IntLit(0))
	}
	switch st.known(fits) {
	case 1:
		inplace(st)
		return one(st)
	case -1:
		realloc(st)
		return one(st)
	}
	o := st.clone()
	st.assume(fits)
	o.assume(Not(fits))
	inplace(st)
	realloc(o)
	return []*State{st, o}
}

func (x *Exec) setResTop(st *State, in ssa.Value, v Value) {
	if in != nil {
		st.top().env[in] = v
	}
}

func (x *Exec) copyCall(st *State, in ssa.Value, dty types.Type, args []Value) []*State {
	d := x.term(st, args[0], dty)
	s := x.term(st, args[1], dty)
	if s.sort != "Slice" {
		panic(unsupported("copy from string"))
	}
	el := sliceElem(dty)
	an, as := arrHeap(el)
	h := st.get(an, as)
	darr, doff, dln, _ := sl(d)
	sarr, soff, sln, _ := sl(s)
	n := Ite(Lt(sln, dln), sln, dln)
	row := Select(h, darr)
	srow := Select(h, sarr)
	nr := Fresh("row", row.sort)
	i := NamedBVar("i!row", SInt)
	// new[i] = i in dst window ? src[i - doff + soff] : old[i]
	body := Eq(Select(nr, i), Ite(And(Le(doff, i), Lt(i, Add(doff, n))), Select(srow, Add(Sub(i, doff), soff)), Select(row, i)))
	st.assume(Forall([]*Term{i}, [][]*Term{{Select(nr, i)}, {Select(row, i)}}, body))
	st.set(an, Store(h, darr, nr))
	x.setRes(st, in, tv(n))
	return one(st)
}

// ---------------------------------------------------------------- intrinsics

const (
	minI64 = "-9223372036854775808"
)

func (x *Exec) intrinsic(st *State, in ssa.Value, common *ssa.CallCommon, key string, fn *ssa.Function, clo *Closure, args []Value) ([]*State, bool) {
	set := func(v ...*Term) ([]*State, bool) {
		var rs []Value
		for _, t := range v {
			rs = append(rs, tv(t))
		}
		x.setRes(st, in, packResults(rs))
		return one(st), true
	}
	pkg := x.pkgOf(fn)
	if pkg == nil {
		return nil, false
	}
	T := func(i int) *Term { return x.term(st, args[i], nil) }
	switch pkg.Path() {
	case "sync/atomic":
		return x.atomicCall(st, in, common, key, fn, clo, args)
	case "sync":
		switch key {
		case "sync.(*Mutex).Lock", "sync.(*RWMutex).Lock":
			x.lock(st, args[0], common.Pos())
			return set()
		case "sync.(*Mutex).Unlock", "sync.(*RWMutex).Unlock":
			x.unlock(st, args[0], common.Pos())
			return set()
		case "sync.(*Once).Do":
			x.trusted["sync.Once.Do and the background goroutine it starts are outside the sequential contract"] = true
			return set()
		}
	case "time":
		switch key {
		case "time.Now":
			x.trusted["time.Now is non-decreasing and its UnixNano is positive"] = true
			old := st.get("clock", SInt)
			t := Fresh("clock", SInt)
			st.heap["clock"] = t
			st.assume(Le(old, t))
			st.assume(Lt(IntLit(0), t))
			return set(t)
		case "time.Since":
			old := st.get("clock", SInt)
			t := Fresh("clock", SInt)
			st.heap["clock"] = t
			st.assume(Le(old, t))
			st.assume(Lt(IntLit(0), t))
			return set(Sub(t, T(0)))
		case "time.Time.UnixNano":
			return set(T(0))
		case "time.Time.UnixMilli":
			return set(builtin("div", SInt, T(0), IntLit(1000000)))
		case "time.Time.UnixMicro":
			return set(builtin("div", SInt, T(0), IntLit(1000)))
		case "time.Time.Unix":
			return set(builtin("div", SInt, T(0), IntLit(1000000000)))
		case "time.Time.Add":
			return set(Add(T(0), T(1)))
		case "time.Time.Sub":
			return set(Sub(T(0), T(1)))
		case "time.Time.Before":
			return set(Lt(T(0), T(1)))
		case "time.Time.After":
			return set(Lt(T(1), T(0)))
		case "time.Time.Equal":
			return set(Eq(T(0), T(1)))
		case "time.Time.IsZero":
			return set(Eq(T(0), IntLitS("-62135596800000000000")))
		case "time.Unix":
			return set(Add(Mul(T(0), IntLit(1000000000)), T(1)))
		case "time.UnixMilli":
			return set(Mul(T(0), IntLit(1000000)))
		case "time.Duration.Milliseconds":
			return set(TDiv(T(0), IntLit(1000000)))
		case "time.Duration.Nanoseconds":
			return set(T(0))
		}
	case "context":
		if key == "context.WithValue" {
			return set(App("context.WithValue", SIface, T(0), T(1), T(2)))
		}
	case "reflect":
		return x.reflectCall(st, in, key, fn, args)
	}
	return nil, false
}

func (x *Exec) reflectCall(st *State, in ssa.Value, key string, fn *ssa.Function, args []Value) ([]*State, bool) {
	var ts []*Term
	for _, a := range args {
		ts = append(ts, x.term(st, a, nil))
	}
	rt := fn.Signature.Results().At(0).Type()
	so := sortOf(rt)
	r := App(key, so, ts...)
	x.trusted["package reflect is modelled by uninterpreted functions (reflect.Value.Equal is ==)"] = true
	switch key {
	case "reflect.TypeOf":
		st.assume(Imp(Not(Eq(ts[0], nilIface)), Not(Eq(r, nilIface))))
	case "reflect.Value.Equal":
		// Equal(ValueOf(a), ValueOf(b)) is a == b
		if ts[0].op == "reflect.ValueOf" && ts[1].op == "reflect.ValueOf" {
			x.setRes(st, in, tv(Eq(ts[0].args[0], ts[1].args[0])))
			return one(st), true
		}
	}
	if b, ok := rt.Underlying().(*types.Basic); ok && b.Info()&types.IsUnsigned != 0 {
		if len(symDecl[key].axioms) == 0 {
			var bs []*Term
			for i, t := range ts {
				bs = append(bs, NamedBVar(fmt.Sprintf("x!rf%d", i), t.sort))
			}
			ap := App(key, so, bs...)
			Axiom(key, Forall(bs, [][]*Term{{ap}}, Le(IntLit(0), ap)))
		}
	} else {
		st.typeFacts(r, rt)
	}
	x.setRes(st, in, tv(r))
	return one(st), true
}

func (x *Exec) atomicCall(st *State, in ssa.Value, common *ssa.CallCommon, key string, fn *ssa.Function, clo *Closure, args []Value) ([]*State, bool) {
	op := fn.Name()
	for _, suf := range []string{"Int64", "Int32", "Uint64", "Uint32", "Pointer", "Uintptr"} {
		if fn.Signature.Recv() == nil {
			op = strings.TrimSuffix(op, suf)
		}
	}
	a := args[0]
	var el types.Type
	if a.addr == nil {
		// address of a scalar heap object or sub-object given as a plain reference
		pt := substType(fn.Signature.Params().At(0).Type(), clo.sigma)
		if fn.Signature.Recv() != nil {
			pt = substType(fn.Signature.Recv().Type(), clo.sigma)
		}
		el = under(pt).(*types.Pointer).Elem()
		x.safety(st, "nil dereference", Not(Eq(a.t, nilRef)), common.Pos())
	} else {
		el = a.addr.typ
	}
	valT := el
	if n, ok := types.Unalias(el).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" && n.Obj().Name() == "Pointer" && n.TypeArgs() != nil {
		valT = types.NewPointer(n.TypeArgs().At(0))
	}
	x.interfere(st, a, common.Pos())
	ld := func() *Term {
		var t *Term
		if a.addr != nil {
			t = st.loadAddr(a.addr).t
		} else {
			t = st.loadObj(a.t, el)
		}
		st.typeFacts(t, valT)
		return t
	}
	stv := func(o *State, v *Term) {
		x.publish(o, v)
		if a.addr != nil {
			o.storeAddr(a.addr, tv(v))
		} else {
			o.storeObj(a.t, el, v)
		}
	}
	switch op {
	case "Load":
		t := ld()
		x.setRes(st, in, tv(t))
		x.atomicStep(st, a, "load", common.Pos())
		return one(st), true
	case "Store":
		v := x.escTerm(st, args[1])
		stv(st, v)
		x.atomicStep(st, a, "store", common.Pos())
		return one(st), true
	case "Add":
		v := Add(ld(), x.term(st, args[1], nil))
		stv(st, v)
		x.setRes(st, in, tv(v))
		x.atomicStep(st, a, "add", common.Pos())
		return one(st), true
	case "Swap":
		o := ld()
		stv(st, x.escTerm(st, args[1]))
		x.setRes(st, in, tv(o))
		x.atomicStep(st, a, "swap", common.Pos())
		return one(st), true
	case "CompareAndSwap":
		o := ld()
		old := x.term(st, args[1], nil)
		nw := x.escTerm(st, args[2])
		c := Eq(o, old)
		k := st.known(c)
		var out []*State
		if k != -1 {
			s1 := st
			if k == 0 {
				s1 = st.clone()
				s1.assume(c)
				s1.notes = append(s1.notes, "CAS ok")
			}
			stv(s1, nw)
			x.setRes(s1, in, tv(tTrue))
			x.atomicStep(s1, a, "cas", common.Pos())
			out = append(out, s1)
		}
		if k != 1 {
			if k == 0 {
				st.assume(Not(c))
				st.notes = append(st.notes, "CAS fails")
			}
			x.setRes(st, in, tv(tFalse))
			x.atomicStep(st, a, "casfail", common.Pos())
			out = append(out, st)
		}
		return out, true
	}
	return nil, false
}

func (x *Exec) escTerm(st *State, v Value) *Term { return x.term(st, v, nil) }

// ---------------------------------------------------------------- external pure functions

var pureExternPkgs = map[string]bool{
	"fmt": true, "hash/crc32": true, "github.com/maruel/natural": true, "strings": true, "strconv": true, "math": true, "errors": true, "math/bits": true,
}

func (x *Exec) pureExtern(fn *ssa.Function, key string) bool {
	p := x.pkgOf(fn)
	if r := fn.Signature.Recv(); r != nil {
		if _, ok := r.Type().Underlying().(*types.Pointer); ok {
			return false // may change its receiver
		}
	}
	return p != nil && pureExternPkgs[p.Path()]
}

func (x *Exec) externCall(st *State, in ssa.Value, common *ssa.CallCommon, key string, fn *ssa.Function, clo *Closure, args []Value) []*State {
	if !x.pureExtern(fn, key) {
		panic(unsupported("external function without contract: " + key))
	}
	x.trusted["external function "+key+" is a deterministic function of its arguments"] = true
	sig := substType(fn.Signature, clo.sigma).(*types.Signature)
	name := "ext:" + key
	var ts []*Term
	for i, a := range args {
		t := x.term(st, a, nil)
		if t.sort == "Slice" {
			// variadic ...any packs: expand statically known lengths
			_, off, ln, _ := sl(t)
			if n, ok := ln.isInt(); ok {
				el := sliceElem(common.Args[i].Type())
				an, as := arrHeap(el)
				row := Select(st.get(an, as), Sel(sliceDT, 0, t))
				for j := int64(0); j < n; j++ {
					ts = append(ts, x.reduceSelect(st, row, Add(off, IntLit(j))))
				}
				name += fmt.Sprintf("#%d", n)
				continue
			}
		}
		ts = append(ts, t)
	}
	for _, t := range ts {
		name += ":" + string(t.sort)
	}
	var res []Value
	for i := 0; i < sig.Results().Len(); i++ {
		rt := sig.Results().At(i).Type()
		so := sortOf(rt)
		r := App(fmt.Sprintf("%s/%d", name, i), so, ts...)
		st.typeFacts(r, rt)
		res = append(res, tv(r))
	}
	x.setRes(st, in, packResults(res))
	return one(st)
}

// reduceSelect resolves a read through named heap versions so that equal contents give equal terms.
func (x *Exec) reduceSelect(st *State, row, i *Term) *Term {
	defs := map[*Term]*Term{}
	for p := st.pc; p != nil; p = p.prev {
		if p.t.kind == 'b' && p.t.op == "=" {
			a, b := p.t.args[0], p.t.args[1]
			if a.kind == 'f' && len(a.args) == 0 {
				if _, ok := defs[a]; !ok && b.id != a.id {
					defs[a] = b
				}
			}
			if b.kind == 'f' && len(b.args) == 0 {
				if _, ok := defs[b]; !ok {
					defs[b] = a
				}
			}
		}
	}
	var red func(t *Term, d int) *Term
	red = func(t *Term, d int) *Term {
		if d > 60 {
			return t
		}
		if t.kind == 'b' && t.op == "select" {
			a := t.args[0]
			idx := t.args[1]
			if a.kind == 'b' && a.op == "select" {
				if na := red(a, d+1); na != a {
					return red(Select(na, idx), d+1)
				}
			}
			if a.kind == 'f' && len(a.args) == 0 {
				if v, ok := defs[a]; ok && v.kind == 'b' && v.op == "store" {
					if v.args[1] == idx {
						return red(v.args[2], d+1)
					}
					if v.args[1].kind == 'i' && idx.kind == 'i' || distinctRefs(v.args[1], idx) {
						return red(Select(v.args[0], idx), d+1)
					}
				}
			}
			if a.kind == 'b' && a.op == "store" {
				if a.args[1] == idx {
					return red(a.args[2], d+1)
				}
				if a.args[1].kind == 'i' && idx.kind == 'i' {
					return red(Select(a.args[0], idx), d+1)
				}
			}
		}
		return t
	}
	return red(Select(row, i), 0)
}

func distinctRefs(a, b *Term) bool {
	isNew := func(t *Term) bool {
		return t.kind == 'f' && len(t.args) == 0 && (strings.HasPrefix(t.op, "new:") || strings.HasPrefix(t.op, "arr~") || strings.HasPrefix(t.op, "map~"))
	}
	return a != b && isNew(a) && isNew(b)
}
