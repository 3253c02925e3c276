package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

type Cand struct {
	proven bool
	broken bool // cannot be evaluated in this loop
	id     string
	loop   string
	desc   string
	dead   bool
	hint   bool
	auto   bool
	// failures seen
	why     string
	killGen int
}

type VC struct {
	fn      string
	name    string
	kind    string // ensures, pre, safety, inv-init, inv-pres, frame, bound, lemma, cover
	pc      *PC
	goal    *Term
	cand    *Cand
	props   []string
	note    string
	text    string
	res     *VCResult
	loop    string
	gen     int
	theorem int // 1 + number of the theorem this proves
}

type Exec struct {
	self        *SV
	functional  []*funcExit
	heapSorts   map[string]Sort
	recCache    map[*ssa.Function]bool
	cloOf       map[*Term]*Closure
	shNames     map[string]bool
	guNames     map[string]bool
	target      *Term
	defs        map[*Term]*Term
	fnNames     map[*Term]string
	cbs         map[*Term]*CallbackSpec
	notesum     map[string]bool
	perPath     bool              // loop invariants are sought per path that enters the loop
	multiEntry  bool              // some loop is entered on several paths
	entryPath   map[string]string // the last path that entered a loop
	inSummary   int
	measure     *Term
	tenv        map[string]types.Type
	targs       []types.Type
	killed      map[string]bool
	loopTerm    map[string]bool
	frozenLoops map[string]bool
	nfinal      int
	gen         int
	ifaceTypes  map[string]types.Type

	w        *World
	c        *Contract
	fn       *ssa.Function
	init     map[string]*Term
	vcs      []*VC
	modset   map[string]map[string]bool
	restart  bool
	cands    map[string]*Cand
	escCache map[*ssa.Alloc]bool
	loopInfo map[*ssa.Function]map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool
	mute     int
	npaths   int
	nsteps   int
	entry    *State
	args     []Value
	env      map[string]SV
	covers   int
	used     map[string]bool // contracts applied / functions inlined
	trusted  map[string]bool
	inlined  map[string]bool
	loopsCut map[string]bool
	loopLoc  map[string]string

	rangeFacts bool
	deepFacts  bool
	finals     []*finalState
	collect    bool
	conc       bool
	bounds     map[string][]*Cand // loop -> termination candidates
}

type finalState struct {
	st  *State
	res []Value
}

// ---------------------------------------------------------------- naming

// funcKey gives a stable, position-independent name: pkg.(*Recv).Name or pkg.Name
func funcKey(f *ssa.Function) string {
	if o := f.Origin(); o != nil {
		f = o
	}
	if f.Parent() != nil {
		return funcKey(f.Parent()) + "$" + strings.TrimPrefix(f.Name(), f.Parent().Name()+"$")
	}
	pkg := ""
	if f.Pkg != nil {
		pkg = f.Pkg.Pkg.Name()
	} else if f.Object() != nil && f.Object().Pkg() != nil {
		pkg = f.Object().Pkg().Name()
	}
	if r := f.Signature.Recv(); r != nil {
		return pkg + "." + recvKey(r.Type()) + "." + f.Name()
	}
	return pkg + "." + f.Name()
}

func recvKey(t types.Type) string {
	ptr := false
	if p, ok := types.Unalias(t).(*types.Pointer); ok {
		ptr = true
		t = p.Elem()
	}
	name := "?"
	if n, ok := types.Unalias(t).(*types.Named); ok {
		name = n.Obj().Name()
	}
	if ptr {
		return "(*" + name + ")"
	}
	return name
}

// ---------------------------------------------------------------- obligations

func (x *Exec) oblige(st *State, kind, name string, goal *Term, props []string, text string) {
	if x.mute > 0 {
		return
	}
	if goal == tTrue {
		// still counts as an obligation, discharged syntactically
	}
	if props == nil {
		props = x.c.props
	}
	note := strings.Join(st.notes, " ; ")
	x.vcs = append(x.vcs, &VC{fn: x.c.key, kind: kind, name: name, pc: st.pc, goal: goal, props: props, note: note, text: text})
}

func (x *Exec) safety(st *State, what string, goal *Term, pos token.Pos) {
	if goal == tTrue {
		return
	}
	if st.known(goal) == 1 {
		return
	}
	x.oblige(st, "safety", what, goal, nil, x.w.pos(pos))
	st.assume(goal)
}

// ---------------------------------------------------------------- value plumbing

func (x *Exec) term(st *State, v Value, ty types.Type) *Term {
	switch {
	case v.t != nil:
		return v.t
	case v.clo != nil:
		return x.closureTerm(st, v.clo)
	case v.addr != nil:
		panic(unsupported(fmt.Sprintf("address of a %s escapes (%c %s)", typeStr(v.addr.typ), v.addr.kind, v.addr.cell)))
	}
	panic(unsupported("value has no term, type " + typeStr(ty)))
}

func (x *Exec) val(st *State, v ssa.Value) Value {
	fr := st.top()
	switch v := v.(type) {
	case *ssa.Const:
		ty := substType(v.Type(), fr.sigma)
		return tv(x.constTerm(v, ty))
	case *ssa.Function:
		return Value{clo: x.mkClosure(v, fr.sigma, nil)}
	case *ssa.Global:
		return x.globalAddr(v)
	case *ssa.Builtin:
		return Value{}
	}
	r, ok := fr.env[v]
	if !ok {
		panic(unsupported(fmt.Sprintf("no value for %s in %s", v.Name(), fr.fn)))
	}
	return r
}

func (x *Exec) mkClosure(f *ssa.Function, sigma Sigma, binds []Value) *Closure {
	fn, sg := x.resolve(f, sigma)
	return &Closure{fn: fn, sigma: sg, binds: binds}
}

// resolve maps an instantiated function to its generic origin plus a substitution.
func (x *Exec) resolve(f *ssa.Function, sigma Sigma) (*ssa.Function, Sigma) {
	if f.Parent() != nil {
		return f, sigma
	}
	o := f.Origin()
	if o == nil || o == f {
		return f, sigma
	}
	ns := Sigma{}
	tps := o.TypeParams()
	tas := f.TypeArgs()
	for i := 0; i < tps.Len() && i < len(tas); i++ {
		ns[tps.At(i)] = substType(tas[i], sigma)
	}
	return o, ns
}

func (x *Exec) globalAddr(g *ssa.Global) Value {
	ty := g.Type().(*types.Pointer).Elem()
	name := "G:" + g.Pkg.Pkg.Name() + "." + g.Name()
	if _, ok := isStruct(ty); ok {
		return tv(globRef(name))
	}
	return Value{addr: &Addr{kind: 'G', gname: name, root: ty, typ: ty}}
}

func (x *Exec) constTerm(c *ssa.Const, ty types.Type) *Term {
	if c.Value == nil {
		return zeroOf(ty)
	}
	switch sortOf(ty) {
	case SBool:
		return BoolLit(constant.BoolVal(c.Value))
	case SInt:
		v := constant.ToInt(c.Value)
		return IntLitS(v.ExactString())
	case SStr:
		s := constant.StringVal(c.Value)
		if s == "" {
			return emptyStr
		}
		return Const("str:"+s, SStr)
	case SFlt:
		return Const("flt:"+c.Value.ExactString(), SFlt)
	}
	// constants of type-parameter type
	return Const("const:"+c.Value.ExactString()+":"+typeStr(ty), sortOf(ty))
}

func (x *Exec) typ(st *State, v ssa.Value) types.Type {
	return substType(v.Type(), st.top().sigma)
}

// escapes decides whether an Alloc needs a heap identity.
func (x *Exec) escapes(a *ssa.Alloc) bool {
	if r, ok := x.escCache[a]; ok {
		return r
	}
	x.escCache[a] = false
	r := addrEscapes(a, map[ssa.Value]bool{})
	if _, ok := under(a.Type().(*types.Pointer).Elem()).(*types.Array); ok {
		r = true
	}
	x.escCache[a] = r
	return r
}

func addrEscapes(v ssa.Value, seen map[ssa.Value]bool) bool {
	if seen[v] {
		return false
	}
	seen[v] = true
	refs := v.Referrers()
	if refs == nil {
		return true
	}
	for _, in := range *refs {
		switch in := in.(type) {
		case *ssa.UnOp:
			if in.Op != token.MUL {
				return true
			}
		case *ssa.Store:
			if in.Addr != v {
				return true
			}
			if in.Val == v {
				return true
			}
		case *ssa.FieldAddr:
			if addrEscapes(in, seen) {
				return true
			}
		case *ssa.DebugRef:
		case *ssa.MakeClosure:
			fn := in.Fn.(*ssa.Function)
			for i, b := range in.Bindings {
				if b == v {
					if addrEscapes(fn.FreeVars[i], seen) {
						return true
					}
				}
			}
		case ssa.CallInstruction:
			// scalar slots whose address only reaches atomic / mutex primitives
			if cal := in.Common().StaticCallee(); cal != nil && isAtomicPrim(cal) {
				for i, a := range in.Common().Args {
					if a == v && i > 0 {
						return true
					}
				}
				continue
			}
			return true
		default:
			return true
		}
	}
	return false
}

func isAtomicPrim(f *ssa.Function) bool {
	k := funcKey(f)
	return strings.HasPrefix(k, "atomic.") || strings.HasPrefix(k, "sync.(*Mutex)")
}

// ---------------------------------------------------------------- loops

func (x *Exec) loopsOf(f *ssa.Function) map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool {
	if l, ok := x.loopInfo[f]; ok {
		return l
	}
	loops := map[*ssa.BasicBlock]map[*ssa.BasicBlock]bool{}
	for _, b := range f.Blocks {
		for _, s := range b.Succs {
			if s.Dominates(b) {
				body := loops[s]
				if body == nil {
					body = map[*ssa.BasicBlock]bool{s: true}
					loops[s] = body
				}
				stack := []*ssa.BasicBlock{b}
				for len(stack) > 0 {
					n := stack[len(stack)-1]
					stack = stack[:len(stack)-1]
					if body[n] {
						continue
					}
					body[n] = true
					stack = append(stack, n.Preds...)
				}
			}
		}
	}
	x.loopInfo[f] = loops
	return loops
}

// ---------------------------------------------------------------- running

const maxSteps = 400000
const maxPaths = 6000

func (x *Exec) drain(work []*State) {
	for len(work) > 0 {
		st := work[len(work)-1]
		work = work[:len(work)-1]
		for st != nil {
			x.nsteps++
			if x.nsteps > maxSteps {
				panic(unsupported("step budget exceeded"))
			}
			var succ []*State
			if x.inSummary > 0 {
				succ = x.stepSummary(st)
			} else {
				succ = x.step(st)
			}
			if x.restart {
				return
			}
			switch len(succ) {
			case 0:
				x.npaths++
				if x.npaths > maxPaths {
					panic(unsupported("path budget exceeded"))
				}
				st = nil
			default:
				for _, o := range succ[1:] {
					work = append(work, o)
				}
				st = succ[0]
			}
		}
	}
}

// stepSummary drops a path of a closure summary that leaves the supported
// fragment: nothing is then assumed about the closure on that path.
func (x *Exec) stepSummary(st *State) (succ []*State) {
	defer func() {
		if r := recover(); r != nil {
			u, ok := r.(unsupportedErr)
			if !ok {
				panic(r)
			}
			x.trusted["closure path not analysed (nothing assumed about its result): "+u.msg] = true
			succ = nil
		}
	}()
	return x.step(st)
}

func (st *State) setv(v ssa.Value, val Value) { st.top().env[v] = val }

func one(st *State) []*State { return []*State{st} }

// step executes one instruction; returns successor states (st itself may be reused).
func (x *Exec) step(st *State) []*State {
	fr := st.top()
	in := fr.block.Instrs[fr.idx]
	fr.idx++
	switch in := in.(type) {
	case *ssa.DebugRef:
		return one(st)
	case *ssa.Alloc:
		ty := substType(in.Type().(*types.Pointer).Elem(), fr.sigma)
		if x.escapes(in) {
			r := st.newObj(ty, typeStr(ty))
			st.setv(in, tv(r))
		} else {
			cell := fr.id + "/" + in.Name() + ":" + in.Comment
			st.cells[cell] = tv(zeroOf(ty))
			x.w.cellType[cell] = ty
			st.setv(in, Value{addr: &Addr{kind: 'L', cell: cell, root: ty, typ: ty}})
		}
		return one(st)
	case *ssa.UnOp:
		return x.unop(st, in)
	case *ssa.BinOp:
		st.setv(in, tv(x.binop(st, in)))
		return one(st)
	case *ssa.Store:
		if selfStore(in) {
			return one(st) // return x with the named result x: the compiler writes nothing
		}
		a := x.val(st, in.Addr)
		v := x.val(st, in.Val)
		x.publishV(st, v)
		x.store(st, a, substType(in.Addr.Type(), fr.sigma), v, in.Pos())
		return one(st)
	case *ssa.FieldAddr:
		x.fieldAddr(st, in)
		return one(st)
	case *ssa.Field:
		ty := x.typ(st, in.X)
		v := x.term(st, x.val(st, in.X), ty)
		st.setv(in, tv(Sel(structDT(ty), in.Field, v)))
		return one(st)
	case *ssa.IndexAddr:
		x.indexAddr(st, in)
		return one(st)
	case *ssa.Index:
		ty := x.typ(st, in.X)
		a := x.term(st, x.val(st, in.X), ty)
		i := x.term(st, x.val(st, in.Index), nil)
		if at, ok := under(ty).(*types.Array); ok {
			x.safety(st, "index in range", And(Le(IntLit(0), i), Lt(i, IntLit(at.Len()))), in.Pos())
			st.setv(in, tv(Select(a, i)))
			return one(st)
		}
		panic(unsupported("Index on " + typeStr(ty)))
	case *ssa.Phi:
		// phis are evaluated on block entry
		return one(st)
	case *ssa.Jump:
		return x.goTo(st, fr.block, fr.block.Succs[0])
	case *ssa.If:
		c := x.term(st, x.val(st, in.Cond), nil)
		b := fr.block
		switch st.known(c) {
		case 1:
			return x.goTo(st, b, b.Succs[0])
		case -1:
			return x.goTo(st, b, b.Succs[1])
		}
		o := st.clone()
		st.assume(c)
		o.assume(Not(c))
		loc := x.w.shortPos(in.Cond.Pos())
		st.notes = append(st.notes, loc+"?T")
		o.notes = append(o.notes, loc+"?F")
		r := x.goTo(o, b, b.Succs[1])
		if x.restart {
			return nil
		}
		return append(x.goTo(st, b, b.Succs[0]), r...)
	case *ssa.Return:
		res := make([]Value, len(in.Results))
		for i, r := range in.Results {
			res[i] = x.val(st, r)
		}
		return x.doReturn(st, res)
	case *ssa.Call:
		return x.call(st, in, in.Common())
	case *ssa.Defer:
		d := DeferCall{common: in.Common()}
		if !in.Common().IsInvoke() {
			d.fnv = x.val(st, in.Common().Value)
		} else {
			panic(unsupported("deferred interface call"))
		}
		for _, a := range in.Common().Args {
			d.args = append(d.args, x.val(st, a))
		}
		fr.defers = append(fr.defers, d)
		return one(st)
	case *ssa.RunDefers:
		return x.runDefers(st)
	case *ssa.Go:
		// the spawned goroutine is not executed here (its body is verified separately)
		x.trusted["goroutine started in "+funcKey(fr.fn)+" is not part of the caller's sequential contract"] = true
		return one(st)
	case *ssa.Panic:
		if x.c.mayPanic {
			st.notes = append(st.notes, "explicit panic")
			return x.unwind(st)
		}
		x.safety(st, "explicit panic unreachable", tFalse, in.Pos())
		return nil
	case *ssa.MakeClosure:
		var bs []Value
		for _, b := range in.Bindings {
			bs = append(bs, x.val(st, b))
			x.publishV(st, bs[len(bs)-1])
		}
		fn := in.Fn.(*ssa.Function)
		sg := fr.sigma
		if fn.Parent() == nil { // bound method thunk
			fn, sg = x.resolve(fn, fr.sigma)
		}
		st.setv(in, Value{clo: &Closure{fn: fn, sigma: sg, binds: bs}})
		return one(st)
	case *ssa.MakeInterface:
		ty := x.typ(st, in.X)
		v := x.val(st, in.X)
		st.setv(in, tv(x.mkIface(st, v, ty)))
		return one(st)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		ops := in.Operands(nil)
		v := x.val(st, *ops[0])
		if ct, ok := in.(*ssa.ChangeType); ok {
			// a value of a type parameter converted to an interface
			from, to := x.typ(st, ct.X), x.typ(st, ct)
			_, tp := types.Unalias(to).(*types.TypeParam)
			if _, ok := under(to).(*types.Interface); ok && !tp {
				v = tv(x.mkIface(st, v, from))
			}
		}
		st.setv(in.(ssa.Value), v)
		return one(st)
	case *ssa.Convert:
		x.convert(st, in)
		return one(st)
	case *ssa.MultiConvert:
		panic(unsupported("MultiConvert"))
	case *ssa.Extract:
		v := x.val(st, in.Tuple)
		st.setv(in, v.tup[in.Index])
		return one(st)
	case *ssa.MakeMap:
		ty := x.typ(st, in)
		r := Fresh("map", SRef)
		st.freshRef(r, nil, objKey(ty))
		dn, ds := mapDomHeap(ty)
		_, row := arrParts(ds)
		st.set(dn, Store(st.get(dn, ds), r, ConstArr(row, tFalse)))
		st.setv(in, tv(r))
		return one(st)
	case *ssa.MakeSlice:
		ty := x.typ(st, in)
		el := sliceElem(ty)
		n := x.term(st, x.val(st, in.Len), nil)
		c := x.term(st, x.val(st, in.Cap), nil)
		x.safety(st, "make slice length", And(Le(IntLit(0), n), Le(n, c)), in.Pos())
		r := Fresh("arr", SRef)
		st.freshRef(r, nil, "A:"+typeStr(el))
		an, as := arrHeap(el)
		_, row := arrParts(as)
		st.set(an, Store(st.get(an, as), r, ConstArr(row, zeroOf(el))))
		st.setv(in, tv(Mk(sliceDT, r, IntLit(0), n, c)))
		return one(st)
	case *ssa.Slice:
		return x.slice(st, in)
	case *ssa.Lookup:
		x.lookup(st, in)
		return one(st)
	case *ssa.MapUpdate:
		ty := x.typ(st, in.Map)
		m := x.term(st, x.val(st, in.Map), ty)
		kt, vt := mapKV(ty)
		k := x.term(st, x.val(st, in.Key), kt)
		v := x.term(st, x.val(st, in.Value), vt)
		x.safety(st, "assignment to nil map", Not(Eq(m, nilRef)), in.Pos())
		x.guard(st, m, "map", true, in.Pos())
		x.publish(st, k)
		x.publish(st, v)
		x.mapStore(st, ty, m, k, v)
		return one(st)
	case *ssa.Range:
		ty := x.typ(st, in.X)
		if _, ok := under(ty).(*types.Map); !ok {
			if tp, ok := ty.(*types.TypeParam); !ok || coreOf(tp) == nil {
				panic(unsupported("range over " + typeStr(ty)))
			}
		}
		m := x.term(st, x.val(st, in.X), ty)
		key := fr.id + "/" + in.Name()
		dn, ds := mapDomHeap(ty)
		d := Select(st.get(dn, ds), m)
		st.iters[key] = &Iter{m: m, mt: ty, start: d}
		st.heap["V:"+key] = ConstArr(d.sort, tFalse)
		st.setv(in, Value{addr: &Addr{kind: 'I', cell: key}})
		return one(st)
	case *ssa.Next:
		return x.next(st, in)
	case *ssa.TypeAssert:
		return x.typeAssert(st, in)
	}
	panic(unsupported(fmt.Sprintf("instruction %T in %s", in, fr.fn)))
}

func sliceElem(ty types.Type) types.Type {
	ty = types.Unalias(ty)
	if tp, ok := ty.(*types.TypeParam); ok {
		ty = coreOf(tp)
	}
	return ty.Underlying().(*types.Slice).Elem()
}

func (x *Exec) mapStore(st *State, ty types.Type, m, k, v *Term) {
	dn, ds := mapDomHeap(ty)
	vn, vs := mapValHeap(ty)
	dh := st.get(dn, ds)
	st.set(dn, Store(dh, m, Store(Select(dh, m), k, tTrue)))
	vh := st.get(vn, vs)
	st.set(vn, Store(vh, m, Store(Select(vh, m), k, v)))
}

func (x *Exec) mkIface(st *State, v Value, ty types.Type) *Term {
	if _, ok := under(ty).(*types.Interface); ok {
		if _, isTP := types.Unalias(ty).(*types.TypeParam); !isTP {
			return x.term(st, v, ty)
		}
	}
	t := x.term(st, v, ty)
	name := "iface:" + typeStr(ty)
	r := App(name, SIface, t)
	if x.ifaceTypes == nil {
		x.ifaceTypes = map[string]types.Type{}
	}
	x.ifaceTypes[name] = ty
	if len(symDecl[name].axioms) == 0 {
		bx := NamedBVar("x!if", t.sort)
		ap := App(name, SIface, bx)
		Axiom(name, Forall([]*Term{bx}, [][]*Term{{ap}}, And(Eq(App("un"+name, t.sort, ap), bx), Not(Eq(ap, nilIface)))))
	}
	return r
}

func (x *Exec) typeAssert(st *State, in *ssa.TypeAssert) []*State {
	ty := substType(in.AssertedType, st.top().sigma)
	v := x.term(st, x.val(st, in.X), nil)
	if _, ok := under(ty).(*types.Interface); ok {
		okT := Fresh("taok", SBool)
		if in.CommaOk {
			st.setv(in, Value{tup: []Value{tv(v), tv(okT)}})
		} else {
			x.safety(st, "type assertion", okT, in.Pos())
			st.setv(in, tv(v))
		}
		return one(st)
	}
	so := sortOf(ty)
	name := "uniface:" + typeStr(ty)
	un := App(name, so, v)
	mk := x.mkIface(st, tv(un), ty)
	is := Eq(mk, v)
	if in.CommaOk {
		st.setv(in, Value{tup: []Value{tv(Ite(is, un, zeroOf(ty))), tv(is)}})
	} else {
		x.safety(st, "type assertion", is, in.Pos())
		st.setv(in, tv(un))
	}
	return one(st)
}

func (x *Exec) fieldAddr(st *State, in *ssa.FieldAddr) {
	fr := st.top()
	base := x.val(st, in.X)
	pt := substType(in.X.Type(), fr.sigma)
	sty := under(pt).(*types.Pointer).Elem()
	f := under(sty).(*types.Struct).Field(in.Field)
	if base.addr != nil {
		a := *base.addr
		a.path = append(append([]int(nil), a.path...), in.Field)
		a.typ = f.Type()
		st.setv(in, Value{addr: &a})
		return
	}
	ref := base.t
	x.safety(st, "nil dereference (."+f.Name()+")", Not(Eq(ref, nilRef)), in.Pos())
	if _, ok := isStruct(f.Type()); ok {
		so := subObj(sty, f, ref)
		st.assume(Eq(Select(st.alloc(), so), Select(st.alloc(), ref)))
		st.setv(in, tv(so))
		return
	}
	st.setv(in, Value{addr: &Addr{kind: 'F', ref: ref, structT: sty, field: f, root: f.Type(), typ: f.Type()}})
}

func (x *Exec) indexAddr(st *State, in *ssa.IndexAddr) {
	fr := st.top()
	ty := substType(in.X.Type(), fr.sigma)
	i := x.term(st, x.val(st, in.Index), nil)
	if tp, ok := types.Unalias(ty).(*types.TypeParam); ok {
		ty = coreOf(tp)
	}
	switch u := ty.Underlying().(type) {
	case *types.Slice:
		s := x.term(st, x.val(st, in.X), ty)
		arr, off, ln, _ := sl(s)
		x.safety(st, "index in range", And(Le(IntLit(0), i), Lt(i, ln)), in.Pos())
		st.setv(in, Value{addr: &Addr{kind: 'E', ref: arr, idx: Add(off, i), elemT: u.Elem(), root: u.Elem(), typ: u.Elem()}})
		return
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		p := x.term(st, x.val(st, in.X), ty)
		x.safety(st, "index in range", And(Le(IntLit(0), i), Lt(i, IntLit(at.Len()))), in.Pos())
		st.setv(in, Value{addr: &Addr{kind: 'E', ref: p, idx: i, elemT: at.Elem(), root: at.Elem(), typ: at.Elem()}})
		return
	}
	panic(unsupported("IndexAddr on " + typeStr(ty)))
}

func (x *Exec) load(st *State, p Value, ptrT types.Type, pos token.Pos) Value {
	el := under(ptrT).(*types.Pointer).Elem()
	if p.addr != nil {
		x.guardAddr(st, p.addr, false, pos)
		v := st.loadAddr(p.addr)
		if v.t != nil && p.addr.kind != 'L' {
			st.typeFacts(v.t, el)
		}
		return v
	}
	x.safety(st, "nil dereference", Not(Eq(p.t, nilRef)), pos)
	t := st.loadObj(p.t, el)
	if _, ok := isStruct(el); ok {
		d := structDT(el)
		stt := under(el).(*types.Struct)
		for i := 0; i < stt.NumFields(); i++ {
			st.typeFacts(Sel(d, i, t), stt.Field(i).Type())
		}
	} else {
		st.typeFacts(t, el)
	}
	return tv(t)
}

func (x *Exec) store(st *State, p Value, ptrT types.Type, v Value, pos token.Pos) {
	el := under(ptrT).(*types.Pointer).Elem()
	if p.addr != nil {
		x.guardAddr(st, p.addr, true, pos)
		st.storeAddr(p.addr, v)
		return
	}
	x.safety(st, "nil dereference", Not(Eq(p.t, nilRef)), pos)
	x.guardCell(st, p.t, pos)
	st.storeObj(p.t, el, x.term(st, v, el))
}

func (x *Exec) unop(st *State, in *ssa.UnOp) []*State {
	fr := st.top()
	switch in.Op {
	case token.MUL:
		p := x.val(st, in.X)
		st.setv(in, x.load(st, p, substType(in.X.Type(), fr.sigma), in.Pos()))
	case token.NOT:
		st.setv(in, tv(Not(x.term(st, x.val(st, in.X), nil))))
	case token.SUB:
		t := x.term(st, x.val(st, in.X), nil)
		if t.sort != SInt {
			st.setv(in, tv(App("neg:"+string(t.sort), t.sort, t)))
		} else {
			st.setv(in, tv(Sub(IntLit(0), t)))
		}
	case token.XOR:
		t := x.term(st, x.val(st, in.X), nil)
		st.setv(in, tv(App("bitnot", t.sort, t)))
	default:
		panic(unsupported("unop " + in.Op.String()))
	}
	return one(st)
}

func (x *Exec) binop(st *State, in *ssa.BinOp) *Term {
	ty := x.typ(st, in.X)
	av, bv := x.val(st, in.X), x.val(st, in.Y)
	if in.Op == token.EQL || in.Op == token.NEQ {
		r := x.eqVals(st, av, bv, ty, x.typ(st, in.Y))
		if in.Op == token.NEQ {
			return Not(r)
		}
		return r
	}
	a, b := x.term(st, av, ty), x.term(st, bv, ty)
	switch in.Op {
	case token.LSS:
		return ltOf(ty, a, b)
	case token.GTR:
		return ltOf(ty, b, a)
	case token.LEQ:
		if a.sort == SInt {
			return Le(a, b)
		}
		return Not(ltOf(ty, b, a))
	case token.GEQ:
		if a.sort == SInt {
			return Le(b, a)
		}
		return Not(ltOf(ty, a, b))
	case token.AND:
		if a.sort == SBool {
			return And(a, b)
		}
	case token.OR:
		if a.sort == SBool {
			return Or(a, b)
		}
	}
	if a.sort == SInt {
		switch in.Op {
		case token.ADD:
			return x.wrap(st, Add(a, b), a, b, ty)
		case token.SUB:
			return x.wrap(st, Sub(a, b), a, b, ty)
		case token.MUL:
			return Mul(a, b)
		case token.QUO:
			x.safety(st, "division by zero", Not(Eq(b, IntLit(0))), in.Pos())
			return TDiv(a, b)
		case token.REM:
			x.safety(st, "division by zero", Not(Eq(b, IntLit(0))), in.Pos())
			return TMod(a, b)
		case token.SHR:
			if n, ok := b.isInt(); ok && n >= 0 && n < 62 {
				return builtin("div", SInt, a, IntLit(1<<uint(n)))
			}
		case token.SHL:
			if n, ok := b.isInt(); ok && n >= 0 && n < 62 {
				return Mul(a, IntLit(1<<uint(n)))
			}
		case token.AND:
			if n, ok := b.isInt(); ok && n == 1 {
				return builtin("mod", SInt, a, IntLit(2))
			}
		}
	}
	return App("op:"+in.Op.String()+":"+string(a.sort), a.sort, a, b)
}

func (x *Exec) eqVals(st *State, a, b Value, at, bt types.Type) *Term {
	// static pointers and closures compared with nil
	if (a.clo != nil || a.addr != nil) && b.t != nil && (b.t == nilFn || b.t == nilRef) {
		return tFalse
	}
	if (b.clo != nil || b.addr != nil) && a.t != nil && (a.t == nilFn || a.t == nilRef) {
		return tFalse
	}
	if a.addr != nil && b.addr != nil && a.addr.kind == 'L' && b.addr.kind == 'L' && a.addr.cell == b.addr.cell && len(a.addr.path) == 0 && len(b.addr.path) == 0 {
		return tTrue
	}
	ta, tb := x.term(st, a, at), x.term(st, b, bt)
	if ta.sort != tb.sort {
		// comparison of an interface with a concrete value
		if ta.sort == SIface {
			tb = x.mkIface(st, tv(tb), bt)
		} else if tb.sort == SIface {
			ta = x.mkIface(st, tv(ta), at)
		}
	}
	if ta.sort == "Slice" { // only s == nil is legal
		s := ta
		if ta.kind == 'b' && ta.op == sliceDT.ctor && ta.args[0] == nilRef {
			s = tb
		}
		return Eq(Sel(sliceDT, 0, s), nilRef)
	}
	return Eq(ta, tb)
}

func (x *Exec) convert(st *State, in *ssa.Convert) {
	from, to := x.typ(st, in.X), x.typ(st, in)
	v := x.val(st, in.X)
	if v.addr != nil {
		st.setv(in, v)
		return
	}
	t := x.term(st, v, from)
	fs, ts := sortOf(from), sortOf(to)
	if fs == ts {
		if fs == SInt {
			st.setv(in, tv(x.convInt(st, t, from, to)))
			return
		}
		st.setv(in, tv(t))
		return
	}
	if fs == SRef && ts == SInt { // uintptr(unsafe.Pointer(p))
		st.setv(in, tv(addrOf(t)))
		return
	}
	st.setv(in, tv(App("conv:"+typeStr(from)+">"+typeStr(to), ts, t)))
}

func intBits(t types.Type) (bits int, signed bool) {
	b, ok := under(t).(*types.Basic)
	if !ok {
		return 64, true
	}
	switch b.Kind() {
	case types.Int8:
		return 8, true
	case types.Int16:
		return 16, true
	case types.Int32:
		return 32, true
	case types.Uint8:
		return 8, false
	case types.Uint16:
		return 16, false
	case types.Uint32:
		return 32, false
	case types.Uint, types.Uint64, types.Uintptr:
		return 64, false
	}
	return 64, true
}

func (x *Exec) convInt(st *State, t *Term, from, to types.Type) *Term {
	fb, fsg := intBits(from)
	tb, tsg := intBits(to)
	if tb >= fb && (fsg == tsg || (!fsg && tb > fb)) {
		return t
	}
	if t.kind == 'i' {
		if n, ok := t.isInt(); ok && n >= 0 && n < 1<<7 {
			return t
		}
	}
	// value preserving when in range, unknown otherwise
	lo, hi := intRange(to)
	return Ite(And(Le(lo, t), Le(t, hi)), t, App("trunc:"+typeStr(to), SInt, t))
}

func intRange(to types.Type) (*Term, *Term) {
	tb, tsg := intBits(to)
	lo, hi := "0", "18446744073709551615"
	switch {
	case tsg && tb == 64:
		lo, hi = "-9223372036854775808", "9223372036854775807"
	case tsg && tb == 32:
		lo, hi = "-2147483648", "2147483647"
	case tsg && tb == 16:
		lo, hi = "-32768", "32767"
	case tsg && tb == 8:
		lo, hi = "-128", "127"
	case tb == 32:
		hi = "4294967295"
	case tb == 16:
		hi = "65535"
	case tb == 8:
		hi = "255"
	}
	return IntLitS(lo), IntLitS(hi)
}

// wrap: the sum or difference of two machine integers is the mathematical one
// when that is representable, and unknown otherwise.  Steps of a 64-bit signed
// integer by a constant are taken not to overflow.
func (x *Exec) wrap(st *State, r, a, b *Term, ty types.Type) *Term {
	if _, ok := under(ty).(*types.Basic); !ok || r.kind == 'i' {
		return r
	}
	bits, signed := intBits(ty)
	if bits == 64 && signed && (a.kind == 'i' || b.kind == 'i') {
		return r
	}
	lo, hi := intRange(ty)
	for _, t := range []*Term{a, b} {
		if t.kind != 'i' {
			st.assume(And(Le(lo, t), Le(t, hi)))
		}
	}
	return Ite(And(Le(lo, r), Le(r, hi)), r, App("wrap:"+typeStr(ty), SInt, r))
}

func (x *Exec) slice(st *State, in *ssa.Slice) []*State {
	fr := st.top()
	ty := substType(in.X.Type(), fr.sigma)
	if tp, ok := types.Unalias(ty).(*types.TypeParam); ok {
		ty = coreOf(tp)
	}
	opt := func(v ssa.Value) *Term {
		if v == nil {
			return nil
		}
		return x.term(st, x.val(st, v), nil)
	}
	lo, hi, mx := opt(in.Low), opt(in.High), opt(in.Max)
	if lo == nil {
		lo = IntLit(0)
	}
	var arr, off, ln, cp *Term
	switch u := ty.Underlying().(type) {
	case *types.Pointer:
		at := u.Elem().Underlying().(*types.Array)
		arr = x.term(st, x.val(st, in.X), ty)
		off, ln, cp = IntLit(0), IntLit(at.Len()), IntLit(at.Len())
	case *types.Slice:
		arr, off, ln, cp = sl(x.term(st, x.val(st, in.X), ty))
	default:
		panic(unsupported("slice of " + typeStr(ty)))
	}
	if hi == nil {
		hi = ln
	}
	lim := cp
	if mx != nil {
		x.safety(st, "slice bounds", And(Le(hi, mx), Le(mx, cp)), in.Pos())
		lim = mx
	}
	x.safety(st, "slice bounds", And(Le(IntLit(0), lo), Le(lo, hi), Le(hi, lim)), in.Pos())
	st.setv(in, tv(Mk(sliceDT, arr, Add(off, lo), Sub(hi, lo), Sub(lim, lo))))
	return one(st)
}

func (x *Exec) lookup(st *State, in *ssa.Lookup) {
	ty := x.typ(st, in.X)
	if _, ok := under(ty).(*types.Basic); ok {
		panic(unsupported("string index"))
	}
	m := x.term(st, x.val(st, in.X), ty)
	kt, vt := mapKV(ty)
	k := x.term(st, x.val(st, in.Index), kt)
	x.guard(st, m, "map", false, in.Pos())
	ok, v := x.mapGet(st, ty, m, k)
	st.typeFacts(v, vt)
	v = Ite(ok, v, zeroOf(vt))
	if in.CommaOk {
		st.setv(in, Value{tup: []Value{tv(v), tv(ok)}})
	} else {
		st.setv(in, tv(v))
	}
}

func (x *Exec) mapGet(st *State, ty types.Type, m, k *Term) (ok, v *Term) {
	dn, ds := mapDomHeap(ty)
	vn, vs := mapValHeap(ty)
	return Select(Select(st.get(dn, ds), m), k), Select(Select(st.get(vn, vs), m), k)
}

// next advances a map iterator: an arbitrary unvisited present key, or the end
// once every key present throughout has been visited.
func (x *Exec) next(st *State, in *ssa.Next) []*State {
	if in.IsString {
		panic(unsupported("range over string"))
	}
	a := x.val(st, in.Iter).addr
	it := st.iters[a.cell]
	vn := "V:" + a.cell
	x.guard(st, it.m, "map", false, in.Pos())
	dn, ds := mapDomHeap(it.mt)
	dom := Select(st.get(dn, ds), it.m)
	vis := st.heap[vn]
	kt, vt := mapKV(it.mt)
	// end
	o := st.clone()
	ks := sortOf(kt)
	q := NamedBVar("k!it", ks)
	o.assume(Forall([]*Term{q}, [][]*Term{{Select(dom, q)}, {Select(it.start, q)}, {Select(vis, q)}}, Imp(And(Select(dom, q), Select(it.start, q)), Select(vis, q))))
	o.setv(in, Value{tup: []Value{tv(tFalse), tv(zeroOf(kt)), tv(zeroOf(vt))}})
	o.notes = append(o.notes, "range-end")
	// one more key
	k := Fresh("k", ks)
	st.assume(Select(dom, k))
	st.assume(Not(Select(vis, k)))
	nv := Fresh(vn, vis.sort)
	st.assume(Eq(nv, Store(vis, k, tTrue)))
	st.heap[vn] = nv
	_, v := x.mapGet(st, it.mt, it.m, k)
	st.typeFacts(v, vt)
	st.typeFacts(k, kt)
	ni := *it
	ni.key = k
	st.iters[a.cell] = &ni
	st.setv(in, Value{tup: []Value{tv(tTrue), tv(k), tv(v)}})
	return []*State{st, o}
}

// ---------------------------------------------------------------- control transfer

func (x *Exec) goTo(st *State, from, to *ssa.BasicBlock) []*State {
	fr := st.top()
	loops := x.loopsOf(fr.fn)
	// leaving loops of this frame
	for len(st.loops) > 0 {
		l := st.loops[len(st.loops)-1]
		if l.frame == fr.id && !l.body[to] {
			st.loops = st.loops[:len(st.loops)-1]
			continue
		}
		break
	}
	predIdx := -1
	for i, p := range to.Preds {
		if p == from {
			predIdx = i
		}
	}
	var phis []*ssa.Phi
	for _, in := range to.Instrs {
		if p, ok := in.(*ssa.Phi); ok {
			phis = append(phis, p)
		} else {
			break
		}
	}
	incoming := map[*ssa.Phi]Value{}
	for _, p := range phis {
		incoming[p] = x.val(st, p.Edges[predIdx])
	}
	unr := 0
	if _, ok := loops[to]; ok {
		unr = x.c.unroll[funcKey(fr.fn)]
	}
	if unr > 0 {
		if fr.visits == nil {
			fr.visits = map[*ssa.BasicBlock]int{}
		}
		nv := map[*ssa.BasicBlock]int{}
		for k, v := range fr.visits {
			nv[k] = v
		}
		nv[to]++
		fr.visits = nv
		if nv[to] > unr+1 {
			panic(unsupported("loop in " + funcKey(fr.fn) + " not exhausted by unrolling"))
		}
	}
	if body, ok := loops[to]; ok && unr == 0 {
		if body[from] {
			x.backEdge(st, to, phis, incoming)
			return nil
		}
		return x.enterLoop(st, to, body, phis, incoming)
	}
	for p, v := range incoming {
		fr.env[p] = v
	}
	fr.block, fr.idx = to, len(phis)
	return one(st)
}

func (x *Exec) enterLoop(st *State, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool, phis []*ssa.Phi, incoming map[*ssa.Phi]Value) []*State {
	x.flush(st, h.Instrs[0].Pos())
	for _, v := range incoming {
		x.publishV(st, v)
	}
	fr := st.top()
	key := fr.id + "#" + fmt.Sprint(h.Index)
	path := strings.Join(st.notes, ";")
	if p, ok := x.entryPath[key]; ok && p != path {
		x.multiEntry = true
	}
	x.entryPath[key] = path
	if x.perPath {
		key += "@" + path
	}
	x.loopLoc[key] = funcKey(fr.fn) + " loop at " + x.w.loopPos(h)
	ms := x.modset[key]
	if ms == nil {
		ms = map[string]bool{}
		x.modset[key] = ms
	}
	x.loopsCut[key] = true
	lc := &LoopCtx{key: key, frame: fr.id, header: h, body: body, prePhi: incoming, phis: map[*ssa.Phi]*Term{}}
	// map iterators advanced in this loop
	for b := range body {
		for _, in := range b.Instrs {
			if n, ok := in.(*ssa.Next); ok && !n.IsString {
				if r, ok := n.Iter.(*ssa.Range); ok && !body[r.Block()] {
					lc.iters = append(lc.iters, fr.id+"/"+r.Name())
				}
			}
		}
	}
	sort.Strings(lc.iters)
	if len(lc.iters) > 0 {
		x.loopTerm[key] = true
	}
	lc.pre = st.clone()
	// candidates evaluated at entry
	lc.it = Fresh("it", SInt)
	x.makeCands(st, lc, phis, incoming)
	// initiation
	ictx := &evalCtx{x: x, cur: lc.pre, old: x.entry, pre: lc.pre, env: x.env, lc: lc, it: IntLit(0), phiVal: func(p *ssa.Phi) Value { return incoming[p] }}
	for _, c := range lc.cands {
		if c.dead {
			continue
		}
		g, err := x.candTerm(c, ictx, lc)
		if err != nil {
			c.dead, c.broken = true, true
			c.why = err.Error()
			continue
		}
		x.obligeCand(lc.pre, "inv-init", c, g, key)
	}
	// havoc
	for _, p := range phis {
		ty := substType(p.Type(), fr.sigma)
		v := incoming[p]
		if v.t != nil && invariantPhi(p, h, body) {
			fr.env[p] = v
			lc.phis[p] = v.t
			continue
		}
		if v.t == nil {
			// static value: keep if all edges agree, else try its term
			if x.staticPhi(st, p, v) {
				fr.env[p] = v
				continue
			}
			v = tv(x.term(st, v, ty))
		}
		t := Fresh("phi:"+p.Comment, v.t.sort)
		fr.env[p] = tv(t)
		lc.phis[p] = t
	}
	names := sortedKeys(ms)
	sort.SliceStable(names, func(i, j int) bool {
		rank := func(n string) int {
			switch {
			case n == allocHeap:
				return 0
			case strings.HasPrefix(n, "MD:"):
				return 1
			}
			return 2
		}
		return rank(names[i]) < rank(names[j])
	})
	for _, name := range names {
		if strings.HasPrefix(name, "cell:") {
			cn := name[5:]
			v, ok := st.cells[cn]
			if !ok {
				continue
			}
			ty := x.w.cellType[cn]
			t := x.term(st, v, ty)
			st.cells[cn] = tv(Fresh("cell:"+cn, t.sort))
			continue
		}
		old, ok := st.heap[name]
		if !ok {
			old = x.init[name]
		}
		if old == nil {
			so, known := x.heapSorts[name]
			if !known {
				continue
			}
			old = st.get(name, so)
		}
		st.havoc(name, old.sort)
		if name == allocHeap {
			st.allocMono(old, st.heap[name])
		}
		if strings.HasPrefix(name, "V:") {
			// visited keys only grow
			nv := st.heap[name]
			k, _ := arrParts(nv.sort)
			q := NamedBVar("k!vis", k)
			st.assume(Finite(nv))
			st.assume(Forall([]*Term{q}, [][]*Term{{Select(old, q)}}, Imp(Select(old, q), Select(nv, q))))
		}
		if strings.HasPrefix(name, "clock") {
			st.assume(Le(old, st.heap[name]))
		}
		if strings.HasPrefix(name, "T:") && strings.HasSuffix(name, ".n") {
			st.assume(Le(old, st.heap[name]))
		}
	}
	// type facts for havocked values
	for _, p := range phis {
		if t, ok := lc.phis[p]; ok {
			st.typeFacts(t, substType(p.Type(), fr.sigma))
		}
	}
	for _, name := range sortedKeys(ms) {
		if strings.HasPrefix(name, "cell:") {
			if v, ok := st.cells[name[5:]]; ok {
				st.typeFacts(v.t, x.w.cellType[name[5:]])
			}
		}
	}
	st.assume(Le(IntLit(0), lc.it))
	st.loops = append(st.loops, lc)
	hctx := &evalCtx{x: x, cur: st, old: x.entry, pre: lc.pre, env: x.env, lc: lc, it: lc.it, phiVal: func(p *ssa.Phi) Value { return fr.env[p] }}
	for _, c := range lc.cands {
		if c.dead {
			continue
		}
		g, err := x.candTerm(c, hctx, lc)
		if err != nil {
			c.dead, c.broken = true, true
			c.why = err.Error()
			continue
		}
		st.assumeCand(g, c)
	}
	fr.block, fr.idx = h, len(phis)
	x.loopHead(st)
	lc.head = st.clone()
	st.notes = append(st.notes, "loop@"+x.w.loopPos(h))
	return one(st)
}

// invariantPhi: the loop carries the value around unchanged.
func invariantPhi(p *ssa.Phi, h *ssa.BasicBlock, body map[*ssa.BasicBlock]bool) bool {
	n := 0
	for i, e := range p.Edges {
		if body[h.Preds[i]] {
			if e != p {
				return false
			}
			n++
		}
	}
	return n > 0
}

func (x *Exec) staticPhi(st *State, p *ssa.Phi, v Value) bool {
	if v.clo != nil || v.addr != nil {
		for _, e := range p.Edges {
			if e == p {
				continue
			}
			if e != p.Edges[0] {
				return false
			}
		}
		return true
	}
	return false
}

func (x *Exec) backEdge(st *State, h *ssa.BasicBlock, phis []*ssa.Phi, incoming map[*ssa.Phi]Value) {
	fr := st.top()
	var lc *LoopCtx
	for i := len(st.loops) - 1; i >= 0; i-- {
		if st.loops[i].frame == fr.id && st.loops[i].header == h {
			lc = st.loops[i]
			st.loops = st.loops[:i+1]
			break
		}
	}
	if lc == nil {
		panic(unsupported("back edge without loop context"))
	}
	key := lc.key
	x.flush(st, h.Instrs[0].Pos())
	// modification set fixpoint
	ms := x.modset[key]
	for name, t := range st.heap {
		h0, ok := lc.head.heap[name]
		if !ok {
			h0 = x.init[name]
		}
		if h0 == nil {
			// variable born inside the loop (iterator of an inner loop): ignore
			continue
		}
		if h0 != t && !ms[name] {
			ms[name] = true
			x.restart = true
		}
	}
	for cn, v := range st.cells {
		h0, ok := lc.head.cells[cn]
		if !ok {
			continue
		}
		if !sameValue(h0, v) && !ms["cell:"+cn] {
			ms["cell:"+cn] = true
			x.restart = true
		}
	}
	if x.restart {
		return
	}
	pv := func(p *ssa.Phi) Value { return incoming[p] }
	// ghost updates declared for loops of the contract
	bctx := &evalCtx{x: x, cur: st, old: x.entry, pre: lc.pre, head: lc.head, env: x.env, lc: lc, it: Add(lc.it, IntLit(1)), phiVal: pv, hphi: func(p *ssa.Phi) Value { return tv(lc.phis[p]) }}
	for _, g := range x.c.loopGhost {
		if err := x.loopGhostUpdate(st, g, bctx, lc); err != nil {
			if os.Getenv("GOVER_DEBUG") != "" {
				fmt.Fprintln(os.Stderr, "loop ghost:", err)
			}
		}
	}
	// ghost state updated here is modified by the loop like any other heap
	for name, t := range st.heap {
		h0, ok := lc.head.heap[name]
		if !ok {
			h0 = x.init[name]
		}
		if h0 != nil && h0 != t && !ms[name] {
			ms[name] = true
			x.restart = true
		}
	}
	if x.restart {
		return
	}
	for _, c := range lc.cands {
		if c.dead {
			continue
		}
		g, err := x.candTerm(c, bctx, lc)
		if err != nil {
			c.dead, c.broken = true, true
			c.why = err.Error()
			continue
		}
		x.obligeCand(st, "inv-pres", c, g, key)
	}
}

func sameValue(a, b Value) bool {
	if a.t != nil || b.t != nil {
		return a.t == b.t
	}
	if a.clo != nil && b.clo != nil {
		return a.clo.fn == b.clo.fn
	}
	if a.addr != nil && b.addr != nil {
		return a.addr.kind == b.addr.kind && a.addr.cell == b.addr.cell && a.addr.ref == b.addr.ref && a.addr.idx == b.addr.idx
	}
	return false
}

func (x *Exec) obligeCand(st *State, kind string, c *Cand, g *Term, key string) {
	if x.mute > 0 {
		return
	}
	x.vcs = append(x.vcs, &VC{fn: x.c.key, kind: kind, name: c.desc, pc: st.pc, goal: g, cand: c, props: x.c.props, note: strings.Join(st.notes, " ; "), loop: key})
}

func (x *Exec) doReturn(st *State, res []Value) []*State {
	fr := st.top()
	// leave loops of this frame
	for len(st.loops) > 0 && st.loops[len(st.loops)-1].frame == fr.id {
		st.loops = st.loops[:len(st.loops)-1]
	}
	if len(st.frames) == 1 {
		x.finish(st, res)
		return nil
	}
	st.frames = st.frames[:len(st.frames)-1]
	caller := st.top()
	if fr.kind == 'd' {
		// deferred call finished: continue running defers of the caller
		if st.panick {
			return x.unwind(st)
		}
		return x.runDefers(st)
	}
	if fr.call != nil {
		caller.env[fr.call] = packResults(res)
	}
	return one(st)
}

func packResults(res []Value) Value {
	switch len(res) {
	case 0:
		return Value{tup: []Value{}}
	case 1:
		return res[0]
	}
	return Value{tup: res}
}

func (x *Exec) runDefers(st *State) []*State {
	fr := st.top()
	if len(fr.defers) == 0 {
		return one(st)
	}
	d := fr.defers[len(fr.defers)-1]
	fr.defers = fr.defers[:len(fr.defers)-1]
	depth := len(st.frames)
	var out []*State
	for _, s := range x.invokeValue(st, nil, d.common, d.fnv, d.args, 'd') {
		if len(s.frames) == depth {
			out = append(out, x.runDefers(s)...)
		} else {
			out = append(out, s)
		}
	}
	return out
}

// unwind: the top frame is panicking; run its defers, then pop.
func (x *Exec) unwind(st *State) []*State {
	st.panick = true
	fr := st.top()
	if len(fr.defers) > 0 {
		d := fr.defers[len(fr.defers)-1]
		fr.defers = fr.defers[:len(fr.defers)-1]
		depth := len(st.frames)
		var out []*State
		for _, s := range x.invokeValue(st, nil, d.common, d.fnv, d.args, 'd') {
			if len(s.frames) == depth {
				out = append(out, x.unwind(s)...)
			} else {
				out = append(out, s)
			}
		}
		return out
	}
	for len(st.loops) > 0 && st.loops[len(st.loops)-1].frame == fr.id {
		st.loops = st.loops[:len(st.loops)-1]
	}
	if len(st.frames) == 1 {
		x.finishPanic(st)
		return nil
	}
	st.frames = st.frames[:len(st.frames)-1]
	return x.unwind(st)
}

// globRef is the address of a package variable of struct type.
func globRef(name string) *Term {
	r := Const("glob:"+name, SRef)
	if d := symDecl["glob:"+name]; d != nil && len(d.axioms) == 0 {
		Axiom("glob:"+name, Not(Eq(r, nilRef)))
	}
	return r
}

// addrOf is the address of an object as a number: injective, 0 only for nil.
func addrOf(t *Term) *Term {
	const name = "addrof"
	r := App(name, SInt, t)
	if len(symDecl[name].axioms) == 0 {
		b := NamedBVar("x!ad", SRef)
		ap := App(name, SInt, b)
		Axiom(name, Forall([]*Term{b}, [][]*Term{{ap}}, And(Eq(App("unaddrof", SRef, ap), b), Eq(Eq(ap, IntLit(0)), Eq(b, nilRef)))))
	}
	return r
}

// selfStore: in stores what was read from the same address with only loads and
// such stores in between.
func selfStore(in *ssa.Store) bool {
	ld, ok := in.Val.(*ssa.UnOp)
	if !ok || ld.Op != token.MUL || ld.X != in.Addr || ld.Block() != in.Block() {
		return false
	}
	between := false
	for _, i := range in.Block().Instrs {
		switch j := i.(type) {
		case *ssa.UnOp:
			if j == ld {
				between = true
			}
		case *ssa.Store:
			if j == in {
				return between
			}
			if between {
				l, ok := j.Val.(*ssa.UnOp)
				if !ok || l.Op != token.MUL || l.X != j.Addr {
					return false
				}
			}
		default:
			if between {
				return false
			}
		}
	}
	return false
}
