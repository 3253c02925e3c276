package main

import (
	"fmt"
	"go/token"
	"go/types"
	"sort"
	"strings"
)

// Concurrent contracts (thread-modular, rely/guarantee).
//
// Without "conc" clauses a contract is sequential: locks are boolean slots and
// nothing interferes.  With them, the heaps listed as shared are changed by
// other threads before every atomic operation, lock acquisition and after every
// callback, within the rely; every step of the verified code (an atomic
// operation, or the plain writes made under the lock since the last step) is
// checked against the same rely, read as a guarantee to the other threads, and
// must keep the invariants.
//
//	conc lock e           the mutex that guards the guarded heaps
//	conc shared heaps     what other threads may change
//	conc guarded heaps    shared heaps accessed plainly, only while holding the lock
//	conc inv e            holds between any two steps
//	conc lockinv e        holds whenever the lock is free
//	conc rely e           two states: old() before, "mine": the thread that sees the change holds the lock
//	conc relyonly e       assumed of interference, implied by guarantee clauses (argued in DESIGN.md)
//	conc guarantee e      checked of every step only
//	conc ghost x := e     performed after every step (old(): before the step)
//	conc target T         in ghost and two-state clauses "target" is the object of type T whose field the
//	                      atomic step changed or read, nil for any other step
//	conc call e           must hold when a callback is called
//	conc returned x := e  ghost update when a callback has returned
type Conc struct {
	lock                                     *Expr
	shared, guarded                          []*Modifies
	inv, lockinv, rely, relyonly, guarantees []*Clause
	ghost, call, returned                    []*Clause
	mapRead, mapWrite                        []*Clause
	target                                   *TypeExpr
}

func (c *Contract) addConc(rest, src string) error {
	if c.conc == nil {
		c.conc = &Conc{}
	}
	kw, body, _ := strings.Cut(strings.TrimSpace(rest), " ")
	body = strings.TrimSpace(body)
	cl := &Clause{kind: "conc " + kw, text: body, src: src}
	switch kw {
	case "lock":
		e, err := parseExpr(body)
		if err != nil {
			return err
		}
		c.conc.lock = e
		return nil
	case "shared", "guarded":
		t := &Contract{}
		if err := t.addClause("modifies", body, src); err != nil {
			return err
		}
		if kw == "shared" {
			c.conc.shared = append(c.conc.shared, t.modifies...)
		} else {
			c.conc.guarded = append(c.conc.guarded, t.modifies...)
		}
		return nil
	case "target":
		ts, err := lex(body)
		if err != nil {
			return err
		}
		p := &parser{ts: ts, src: body}
		c.conc.target = p.typeExpr()
		return nil
	case "ghost", "returned":
		if err := parseGhost(cl, body); err != nil {
			return err
		}
		if kw == "ghost" {
			c.conc.ghost = append(c.conc.ghost, cl)
		} else {
			c.conc.returned = append(c.conc.returned, cl)
		}
		return nil
	}
	s := body
	if i := strings.Index(s, ": "); i > 0 && !strings.ContainsAny(s[:i], " (") {
		cl.label = s[:i]
		s = strings.TrimSpace(s[i+1:])
	}
	e, err := parseExpr(s)
	if err != nil {
		return err
	}
	cl.e = e
	if cl.label == "" {
		cl.label = s
	}
	switch kw {
	case "inv":
		c.conc.inv = append(c.conc.inv, cl)
	case "lockinv":
		c.conc.lockinv = append(c.conc.lockinv, cl)
	case "rely":
		c.conc.rely = append(c.conc.rely, cl)
	case "relyonly":
		c.conc.relyonly = append(c.conc.relyonly, cl)
	case "guarantee":
		c.conc.guarantees = append(c.conc.guarantees, cl)
	case "call":
		c.conc.call = append(c.conc.call, cl)
	case "mapread":
		c.conc.mapRead = append(c.conc.mapRead, cl)
	case "mapwrite":
		c.conc.mapWrite = append(c.conc.mapWrite, cl)
	default:
		return fmt.Errorf("unknown conc clause %q", kw)
	}
	return nil
}

func (x *Exec) cctx(st *State, old *State, mine *Term) *evalCtx {
	c := x.ctx(st)
	if old != nil {
		c.old = old
	}
	vars := map[string]SV{"mine": {t: mine, ty: tyBool}}
	if te := x.c.conc.target; te != nil {
		t := x.target
		if t == nil {
			t = nilRef
		}
		vars["target"] = SV{t: t, ty: types.NewPointer(c.typ(te))}
	}
	return c.with(vars)
}

func (x *Exec) cbool(c *evalCtx, cl *Clause) *Term {
	t, err := c.Bool(cl.e)
	if err != nil {
		panic(evalErr{x.c.key + " " + cl.kind + " " + cl.label + ": " + err.Error()})
	}
	return t
}

// holding: the verified thread holds the protocol's lock.
func (x *Exec) holding(st *State) *Term {
	if x.c.conc.lock == nil {
		return tFalse
	}
	c := x.ctx(st)
	v, err := c.Val(x.c.conc.lock)
	if err != nil {
		panic(evalErr{x.c.key + " conc lock: " + err.Error()})
	}
	return c.term(v)
}

func (x *Exec) sharedHeaps(st *State) []modRef {
	c := x.ctx(st)
	c.old = st
	ms, err := x.modHeaps(c, x.c.conc.shared)
	if err != nil {
		panic(evalErr{x.c.key + " conc shared: " + err.Error()})
	}
	return ms
}

func (x *Exec) concInit(st *State) {
	if x.c.conc == nil {
		return
	}
	x.trusted["other threads use the object only through functions that keep the protocol (each function under a concurrent contract is checked to)"] = true
	x.trusted["atomic operations and locks are sequentially consistent"] = true
	c := x.cctx(st, st, x.holding(st))
	for _, cl := range x.c.conc.inv {
		st.assume(x.cbool(c, cl))
	}
	x.shNames = map[string]bool{}
	for _, m := range x.sharedHeaps(st) {
		x.shNames[m.name] = true
		st.get(m.name, m.sort)
	}
	x.guNames = map[string]bool{}
	gm, err := x.modHeaps(c, x.c.conc.guarded)
	if err != nil {
		panic(evalErr{x.c.key + " conc guarded: " + err.Error()})
	}
	for _, m := range gm {
		x.guNames[m.name] = true
	}
	x.mark(st)
	for _, cl := range append(append([]*Clause(nil), x.c.conc.rely...), x.c.conc.guarantees...) {
		for _, m := range []*Term{tFalse, tTrue} {
			x.obligeSplit(st, "conc-guarantee", "doing nothing keeps "+cl.label, x.cbool(x.cctx(st, st, m), cl), nil, cl.text)
		}
	}
	x.vcs = append(x.vcs, &VC{fn: x.c.key, kind: "cover", name: "invariant satisfiable", pc: st.pc, goal: tFalse, props: x.c.props})
}

// mark: the state others have been shown.
func (x *Exec) mark(st *State) {
	n := st.clone()
	n.snap = nil
	st.snap = n
}

// step ends a step of the verified thread.
func (x *Exec) cstep(st *State, what string, pos token.Pos) {
	if x.c.conc == nil {
		return
	}
	h := x.holding(st)
	c := x.cctx(st, st.snap, tFalse)
	for _, g := range x.c.conc.ghost {
		if err := x.ghostUpdate(st, g, c); err != nil {
			panic(evalErr{x.c.key + " conc ghost: " + err.Error()})
		}
	}
	at := what + " at " + x.w.pos(pos)
	var invs []*Term
	for _, cl := range x.c.conc.inv {
		t := x.cbool(c, cl)
		if t == x.cbool(x.cctx(st.snap, st.snap, tFalse), cl) {
			continue
		}
		x.obligeSplit(st, "conc-inv", "after "+at+": "+cl.label, t, nil, cl.text)
		invs = append(invs, t)
	}
	for _, cl := range x.c.conc.guarantees {
		if t := x.cbool(c, cl); t != x.cbool(x.cctx(st.snap, st.snap, tFalse), cl) {
			x.obligeSplit(st, "conc-guarantee", at+": "+cl.label, t, nil, cl.text)
		}
	}
	for _, cl := range x.c.conc.rely {
		// what no clause reads has not changed for it; rely is reflexive
		t := x.cbool(c, cl)
		if t != x.cbool(x.cctx(st.snap, st.snap, tFalse), cl) {
			x.obligeSplit(st, "conc-guarantee", at+": "+cl.label, t, nil, cl.text)
		}
		t2 := x.cbool(x.cctx(st, st.snap, tTrue), cl)
		if t2 != t && t2 != x.cbool(x.cctx(st.snap, st.snap, tTrue), cl) {
			x.obligeSplit(st, "conc-guarantee", at+" (others may hold the lock): "+cl.label, Imp(Not(h), t2), nil, cl.text)
		}
	}
	for _, t := range invs {
		st.assume(t)
	}
	x.mark(st)
}

// flush turns the plain writes made since the last step into a step.
func (x *Exec) flush(st *State, pos token.Pos) {
	if x.c.conc != nil {
		x.cstep(st, "plain writes", pos)
	}
}

func (x *Exec) interfere(st *State, a Value, pos token.Pos) {
	if x.c.conc == nil {
		return
	}
	x.flush(st, pos)
	pre := st.clone()
	pre.snap = nil
	preAlloc := st.alloc()
	st.allocMono(preAlloc, st.havoc(allocHeap, allocSort))
	for _, m := range x.sharedHeaps(pre) {
		old := st.get(m.name, m.sort)
		nw := st.havoc(m.name, m.sort)
		if m.scoped {
			st.assume(m.unchangedOutside(preAlloc, old, nw, false))
		}
		x.unpublished(st, m, old, nw)
	}
	oc := st.get("clock", SInt)
	nc := Fresh("clock", SInt)
	st.heap["clock"] = nc
	st.assume(Le(oc, nc))
	c := x.cctx(st, pre, x.holding(st))
	for _, cl := range x.c.conc.inv {
		st.assume(x.cbool(c, cl))
	}
	for _, cl := range x.c.conc.rely {
		st.assume(x.cbool(c, cl))
	}
	for _, cl := range x.c.conc.relyonly {
		st.assume(x.cbool(c, cl))
	}
	x.mark(st)
}

func (x *Exec) lock(st *State, a Value, pos token.Pos) {
	x.interfere(st, a, pos)
	h := st.loadAddr(a.addr).t
	x.safety(st, "mutex is not already held (self-deadlock)", Not(h), pos)
	st.storeAddr(a.addr, tv(tTrue))
	if x.c.conc != nil {
		c := x.cctx(st, st, tTrue)
		for _, cl := range x.c.conc.lockinv {
			st.assume(Imp(x.holding(st), x.cbool(c, cl)))
		}
		x.cstep(st, "lock", pos)
	}
}

func (x *Exec) unlock(st *State, a Value, pos token.Pos) {
	h := st.loadAddr(a.addr).t
	x.safety(st, "unlock of a held mutex", h, pos)
	if x.c.conc != nil {
		x.flush(st, pos)
		c := x.cctx(st, st, tTrue)
		for _, cl := range x.c.conc.lockinv {
			x.obligeSplit(st, "conc-lockinv", "at the unlock at "+x.w.pos(pos)+": "+cl.label, x.cbool(c, cl), nil, cl.text)
		}
	}
	st.storeAddr(a.addr, tv(tFalse))
	if x.c.conc != nil {
		x.cstep(st, "unlock", pos)
	}
}

// guard: plain access to a map.
func (x *Exec) guard(st *State, m *Term, what string, write bool, pos token.Pos) {
	if x.c.conc == nil {
		return
	}
	cls := x.c.conc.mapRead
	if write {
		cls = x.c.conc.mapWrite
	}
	c := x.cctx(st, st, x.holding(st)).with(map[string]SV{"themap": {t: m, ty: types.Typ[types.UnsafePointer]}})
	for _, cl := range cls {
		if st.owned[m] {
			return
		}
		x.safety(st, "no data race on a map: "+cl.label, Or(Eq(m, nilRef), x.cbool(c, cl)), pos)
	}
}

func (x *Exec) guardAddr(st *State, a *Addr, write bool, pos token.Pos) {
	if x.c.conc == nil || a.kind != 'F' {
		return
	}
	name, _ := fieldHeap(a.structT, a.field)
	if st.owned[a.ref] {
		return
	}
	if !x.shNames[name] {
		if write {
			x.safety(st, "no data race: "+name+" of a published object is not written", tFalse, pos)
		}
		return
	}
	if x.guNames[name] {
		x.safety(st, "no data race: "+name+" is accessed under the lock", x.holding(st), pos)
		return
	}
	x.safety(st, "no data race: "+name+" is accessed atomically", tFalse, pos)
}

// guardCell: a plain write to a variable through a pointer.
func (x *Exec) guardCell(st *State, r *Term, pos token.Pos) {
	if x.c.conc != nil && !st.owned[r] {
		x.safety(st, "no data race: a published value is not written", tFalse, pos)
	}
}

// publish: objects reachable from v are no longer known to this thread only.
func (x *Exec) publish(st *State, v *Term) {
	if x.c.conc == nil || len(st.owned) == 0 || v == nil {
		return
	}
	seen := map[*Term]bool{}
	var walk func(*Term)
	walk = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		delete(st.owned, t)
		for i, a := range t.args {
			if i == 1 && (t.op == "select" || t.op == "store") {
				continue // what is read from an object is not the object
			}
			walk(a)
		}
	}
	walk(v)
}

func (x *Exec) publishV(st *State, v Value) {
	if x.c.conc == nil {
		return
	}
	x.publish(st, v.t)
	if v.addr != nil {
		x.publish(st, v.addr.ref)
	}
	if v.clo != nil {
		for _, b := range v.clo.binds {
			x.publishV(st, b)
		}
	}
	for _, t := range v.tup {
		x.publishV(st, t)
	}
}

// unpublished: what others write cannot mention an object only this thread
// knows, and they do not change it.
func (x *Exec) unpublished(st *State, m modRef, old, nw *Term) {
	_, vs := arrParts(m.sort)
	var own []*Term
	for r := range st.owned {
		own = append(own, r)
	}
	sort.Slice(own, func(i, j int) bool { return own[i].id < own[j].id })
	for _, r := range own {
		if m.scoped {
			for _, o := range m.refs {
				if vs == SRef {
					st.assume(Not(Eq(Select(nw, o), r)))
				}
			}
			continue
		}
		st.assume(Eq(Select(nw, r), Select(old, r)))
		if vs == SRef {
			o := NamedBVar("o!own", SRef)
			st.assume(Forall([]*Term{o}, [][]*Term{{Select(nw, o)}}, Not(Eq(Select(nw, o), r))))
		}
	}
}

func (x *Exec) atomicStep(st *State, a Value, what string, pos token.Pos) {
	if te := x.c.conc; te != nil && te.target != nil && a.addr != nil && a.addr.kind == 'F' {
		if types.Identical(x.ctx(st).typ(te.target), a.addr.structT) {
			x.target = a.addr.ref
		}
	}
	x.cstep(st, what, pos)
	x.target = nil
}

func (x *Exec) onCallback(st *State, cb *CallbackSpec, pos token.Pos) {
	if x.c.conc == nil {
		return
	}
	x.flush(st, pos)
	c := x.cctx(st, st.snap, x.holding(st))
	for _, cl := range x.c.conc.call {
		x.obligeSplit(st, "conc-call", "when "+cb.param+" is called at "+x.w.pos(pos)+": "+cl.label, x.cbool(c, cl), nil, cl.text)
	}
}

// afterCallback: the callback took time, others ran.
func (x *Exec) afterCallback(st *State, cb *CallbackSpec, pos token.Pos) {
	if x.c.conc == nil {
		return
	}
	x.interfere(st, Value{}, pos)
	c := x.cctx(st, st.snap, x.holding(st))
	for _, g := range x.c.conc.returned {
		if err := x.ghostUpdate(st, g, c); err != nil {
			panic(evalErr{x.c.key + " conc returned: " + err.Error()})
		}
	}
	if len(x.c.conc.returned) > 0 {
		x.cstep(st, "return of "+cb.param, pos)
	}
}

// loopHead: an arbitrary iteration starts between two steps.
func (x *Exec) loopHead(st *State) {
	if x.c.conc == nil {
		return
	}
	c := x.cctx(st, st, x.holding(st))
	for _, cl := range x.c.conc.inv {
		st.assume(x.cbool(c, cl))
	}
	x.mark(st)
}

func (x *Exec) concFinish(st *State, c *evalCtx) {
	x.flush(st, x.fn.Pos())
}

// concCands: what others keep between the entry of a loop and its head, and
// what the lock protects.
func (x *Exec) concCands(lc *LoopCtx) {
	two := func(what string, cls []*Clause) {
		for _, cl := range cls {
			cl := cl
			x.mkCand(lc, what+" since the loop was entered: "+cl.label, &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
				return x.cbool(x.cctx(cx.cur, lc.pre, And(x.holding(lc.pre), x.holding(cx.cur))), cl)
			}})
		}
	}
	two("rely", x.c.conc.rely)
	two("rely", x.c.conc.relyonly)
	for _, cl := range x.c.conc.lockinv {
		cl := cl
		x.mkCand(lc, "under the lock: "+cl.label, &candDef{auto: func(cx *evalCtx, lc *LoopCtx) *Term {
			return Imp(x.holding(cx.cur), x.cbool(x.cctx(cx.cur, cx.cur, tTrue), cl))
		}})
	}
}
