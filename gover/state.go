package main

import (
	"fmt"
	"go/types"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- values

type Value struct {
	t    *Term
	addr *Addr
	clo  *Closure
	tup  []Value
}

func (v Value) isZero() bool { return v.t == nil && v.addr == nil && v.clo == nil && v.tup == nil }

type Closure struct {
	fn    *ssa.Function
	sigma Sigma
	binds []Value
	// bound method value / builtin wrappers use fn too
	fnTerm *Term
}

type Addr struct {
	kind    byte // 'F' heap field, 'E' array element, 'L' local cell, 'G' global
	ref     *Term
	idx     *Term
	structT types.Type
	field   *types.Var
	elemT   types.Type
	cell    string
	gname   string
	root    types.Type // type of the root slot
	path    []int
	typ     types.Type // pointee type
}

func tv(t *Term) Value { return Value{t: t} }

// ---------------------------------------------------------------- state

type PC struct {
	prev *PC
	t    *Term
	cand *Cand
}

type Frame struct {
	fn     *ssa.Function
	sigma  Sigma
	env    map[ssa.Value]Value
	block  *ssa.BasicBlock
	idx    int
	defers []DeferCall
	call   ssa.Value // call instruction in the caller receiving the result
	id     string
	kind   byte // 0 normal, 'd' deferred call (result dropped)
	visits map[*ssa.BasicBlock]int
}

type DeferCall struct {
	common *ssa.CallCommon
	fnv    Value
	args   []Value
}

type Iter struct {
	m     *Term // map ref
	mt    types.Type
	start *Term // domain at start
	key   *Term // the key of the current iteration
}

type LoopCtx struct {
	key    string
	frame  string
	header *ssa.BasicBlock
	body   map[*ssa.BasicBlock]bool
	pre    *State
	it     *Term
	cands  []*Cand
	phis   map[*ssa.Phi]*Term
	prePhi map[*ssa.Phi]Value
	head   *State
	iters  []string
	defs   map[*Cand]*candDef
	mut    []slotSrc
	fix    []slotSrc
}

type State struct {
	x      *Exec
	frames []*Frame
	heap   map[string]*Term
	cells  map[string]Value
	iters  map[string]*Iter
	pc     *PC
	loops  []*LoopCtx
	notes  []string // path description
	depth  int
	nstep  int
	panick bool
	locks  map[*Term]bool // lock objects (ref terms) held by this thread
	owned  map[*Term]bool // objects allocated by this thread and not yet published
	lin    int            // ghost linearisation counter etc
	ghost  map[string]SV
	abases []*Term
	snap   *State // the last state of a concurrent contract that others were shown
}

func (s *State) clone() *State {
	n := *s
	n.frames = make([]*Frame, len(s.frames))
	for i, f := range s.frames {
		g := *f
		g.env = make(map[ssa.Value]Value, len(f.env))
		for k, v := range f.env {
			g.env[k] = v
		}
		g.defers = append([]DeferCall(nil), f.defers...)
		n.frames[i] = &g
	}
	n.heap = make(map[string]*Term, len(s.heap))
	for k, v := range s.heap {
		n.heap[k] = v
	}
	n.cells = make(map[string]Value, len(s.cells))
	for k, v := range s.cells {
		n.cells[k] = v
	}
	n.iters = make(map[string]*Iter, len(s.iters))
	for k, v := range s.iters {
		n.iters[k] = v
	}
	n.locks = make(map[*Term]bool, len(s.locks))
	for k, v := range s.locks {
		n.locks[k] = v
	}
	n.owned = make(map[*Term]bool, len(s.owned))
	for k, v := range s.owned {
		n.owned[k] = v
	}
	n.ghost = make(map[string]SV, len(s.ghost))
	for k, v := range s.ghost {
		n.ghost[k] = v
	}
	n.loops = append([]*LoopCtx(nil), s.loops...)
	n.notes = append([]string(nil), s.notes...)
	return &n
}

func (s *State) top() *Frame { return s.frames[len(s.frames)-1] }

func (s *State) assume(t *Term) {
	if t == nil || t == tTrue {
		return
	}
	if t.kind == 'b' && t.op == "and" {
		for _, a := range t.args {
			s.assume(a)
		}
		return
	}
	s.pc = &PC{prev: s.pc, t: t}
}

// assumeOnce adds a fact unless it was added recently
func (s *State) assumeOnce(t *Term) {
	n := 0
	for p := s.pc; p != nil && n < 200; p = p.prev {
		if p.t == t {
			return
		}
		n++
	}
	s.assume(t)
}

var bvarMemo = map[*Term]bool{}

func hasBVar(t *Term) bool {
	if t.kind == 'v' {
		return true
	}
	if len(t.args) == 0 {
		return false
	}
	if r, ok := bvarMemo[t]; ok {
		return r
	}
	r := false
	for _, a := range t.args {
		if hasBVar(a) {
			r = true
			break
		}
	}
	bvarMemo[t] = r
	return r
}

func (s *State) assumeCand(t *Term, c *Cand) {
	if t == tTrue {
		return
	}
	s.pc = &PC{prev: s.pc, t: t, cand: c}
}

// known reports a syntactic decision of cond on this path: 1 true, -1 false, 0 unknown
func (s *State) known(c *Term) int {
	if c == tTrue {
		return 1
	}
	if c == tFalse {
		return -1
	}
	n := Not(c)
	for p := s.pc; p != nil; p = p.prev {
		if p.cand != nil {
			continue
		}
		if p.t == c {
			return 1
		}
		if p.t == n {
			return -1
		}
	}
	return 0
}

func (s *State) get(name string, so Sort) *Term {
	if t, ok := s.heap[name]; ok {
		return t
	}
	return s.x.initHeap(name, so)
}

func (s *State) set(name string, t *Term) {
	// name every version so that quantifier patterns stay small
	if t.kind != 'f' || len(t.args) > 0 {
		c := Fresh(name, t.sort)
		s.assume(Eq(c, t))
		if s.x.defs == nil {
			s.x.defs = map[*Term]*Term{}
		}
		s.x.defs[c] = t
		t = c
	}
	s.heap[name] = t
}

// lookThrough looks a read up through the heap versions this execution defined
func (x *Exec) lookThrough(t *Term, depth int) *Term {
	if depth > 60 || t == nil || t.kind != 'b' {
		return t
	}
	if t.op == "select" {
		a := x.lookThrough(t.args[0], depth+1)
		if d := x.defs[a]; d != nil {
			a = d
		}
		r := Select(a, t.args[1])
		if r.kind == 'b' && r.op == "select" && r.args[0].kind == 'b' && r.args[0].op == "store" {
			// distinct objects allocated by this execution
			k, i := r.args[0].args[1], r.args[1]
			if k != i && isNewRef(k) && isNewRef(i) {
				return x.lookThrough(Select(r.args[0].args[0], i), depth+1)
			}
			return t
		}
		if r != t && !(r.kind == 'b' && r.op == "select" && r.args[0] == a && x.defs[a] == nil) {
			return x.lookThrough(r, depth+1)
		}
		return r
	}
	return t
}

func isNewRef(t *Term) bool {
	return t.kind == 'f' && len(t.args) == 0 && strings.HasPrefix(t.op, "new:")
}

func (s *State) havoc(name string, so Sort) *Term {
	c := Fresh(name, so)
	s.heap[name] = c
	s.x.heapAxioms(name, c)
	s.x.closed(name, c, s.get)
	return c
}

func (x *Exec) initHeap(name string, so Sort) *Term {
	if t, ok := x.init[name]; ok {
		return t
	}
	if x.heapSorts == nil {
		x.heapSorts = map[string]Sort{}
	}
	x.heapSorts[name] = so
	t := Const(name+"@0", so)
	x.init[name] = t
	x.heapAxioms(name, t)
	x.closed(name, t, x.initHeap)
	return t
}

// closed: every reference stored in an allocated object is nil or allocated.
// The fact is attached to the heap symbol and holds in the state in which the
// symbol is introduced.
func (x *Exec) closed(name string, t *Term, get func(string, Sort) *Term) {
	if !strings.HasPrefix(string(t.sort), "(Array Ref ") || name == allocHeap {
		return
	}
	r := NamedBVar("r!cl", SRef)
	vars := []*Term{r}
	row := Select(t, r)
	var el, guard *Term
	al := func() *Term { return get(allocHeap, allocSort) }
	switch {
	case strings.HasPrefix(name, "F:"), strings.HasPrefix(name, "C:"):
		el = row
		guard = nil
	case strings.HasPrefix(name, "A:"):
		i := NamedBVar("i!cl", SInt)
		vars = append(vars, i)
		el = Select(row, i)
	case strings.HasPrefix(name, "MV:"):
		k, _ := arrParts(row.sort)
		i := NamedBVar("k!cl", k)
		vars = append(vars, i)
		el = Select(row, i)
		guard = Select(Select(get("MD:"+name[3:], ArrSort(SRef, ArrSort(k, SBool))), r), i)
	default:
		return
	}
	ref := el
	if el.sort == "Slice" {
		ref = Sel(sliceDT, 0, el)
	}
	if ref.sort != SRef {
		return
	}
	hyp := Select(al(), r)
	if guard != nil {
		hyp = And(hyp, guard)
	}
	Axiom(t.op, Forall(vars, [][]*Term{{el}}, Imp(hyp, Or(Eq(ref, nilRef), Select(al(), ref)))))
}

func (x *Exec) heapAxioms(name string, t *Term) {
	if len(name) > 3 && name[:3] == "MD:" {
		_, v := arrParts(t.sort)
		Axiom(t.op, Eq(Select(t, nilRef), ConstArr(v, tFalse)))
		r := NamedBVar("r!fin", SRef)
		f := Finite(Select(t, r))
		Axiom(t.op, Forall([]*Term{r}, [][]*Term{{f}}, f))
	}
	if name == allocHeap {
		Axiom(t.op, Not(Select(t, nilRef)))
		allocBases = append(allocBases, t)
	}
}

// allocMono: objects stay allocated.  The fact is also stated against every
// earlier base of the allocation map on this path, for triggering.
func (s *State) allocMono(old, nw *Term) {
	r := NamedBVar("r!al", SRef)
	s.assume(Forall([]*Term{r}, [][]*Term{{Select(old, r)}, {Select(nw, r)}}, Imp(Select(old, r), Select(nw, r))))
	base := append([]*Term{s.x.initHeap(allocHeap, allocSort)}, s.abases...)
	for _, b := range base {
		if b != old {
			s.assume(Forall([]*Term{r}, [][]*Term{{Select(b, r)}}, Imp(Select(b, r), Select(nw, r))))
		}
	}
	s.abases = append(append([]*Term(nil), s.abases...), nw)
}

func (s *State) alloc() *Term { return s.get(allocHeap, allocSort) }

// ---------------------------------------------------------------- loads and stores

// typeFacts assumes what Go's type system guarantees about a value just obtained.
func (s *State) typeFacts(t *Term, ty types.Type) {
	ty = types.Unalias(ty)
	if _, ok := specialScalar(ty); ok {
		return
	}
	if tp, ok := ty.(*types.TypeParam); ok {
		if c := coreOf(tp); c != nil {
			s.typeFacts(t, c)
		}
		return
	}
	switch u := ty.Underlying().(type) {
	case *types.Pointer, *types.Map:
		if t == nilRef {
			return
		}
		s.assume(Or(Eq(t, nilRef), And(Select(s.alloc(), t), refTyped(t, ty))))
	case *types.Slice:
		if t.kind == 'b' && t.op == sliceDT.ctor {
			return
		}
		arr, off, ln, cp := sl(t)
		s.assume(Le(IntLit(0), off))
		s.assume(Le(IntLit(0), ln))
		s.assume(Le(ln, cp))
		s.assume(Le(cp, IntLitS("1152921504606846976")))
		s.assume(Or(Eq(arr, nilRef), And(Select(s.alloc(), arr), hasDyn(arr, "A:"+typeStr(sliceElem(ty))))))
		s.assume(Imp(Eq(arr, nilRef), Eq(cp, IntLit(0))))
	case *types.Basic:
		if t.kind == 'i' {
			return
		}
		switch u.Kind() {
		case types.Uint, types.Uint8, types.Uint16, types.Uint32, types.Uint64, types.Uintptr:
			s.assume(Le(IntLit(0), t))
			switch u.Kind() {
			case types.Uint8:
				s.assume(Le(t, IntLit(255)))
			case types.Uint32:
				s.assume(Le(t, IntLit(1<<32-1)))
			}
		case types.Int, types.Int64:
			if s.x.rangeFacts {
				s.assume(Le(IntLitS("-9223372036854775808"), t))
				s.assume(Le(t, IntLitS("9223372036854775807")))
			}
		}
	case *types.Struct:
		if _, ok := isStruct(ty); ok && s.x.deepFacts {
			d := structDT(ty)
			for i := 0; i < u.NumFields(); i++ {
				s.typeFacts(Sel(d, i, t), u.Field(i).Type())
			}
		}
	}
}

func sl(t *Term) (arr, off, ln, cp *Term) {
	return Sel(sliceDT, 0, t), Sel(sliceDT, 1, t), Sel(sliceDT, 2, t), Sel(sliceDT, 3, t)
}

// loadObj reads the value of type ty stored at heap object ref.
func (s *State) loadObj(ref *Term, ty types.Type) *Term {
	if st, ok := isStruct(ty); ok {
		d := structDT(ty)
		as := make([]*Term, st.NumFields())
		for i := range as {
			as[i] = s.loadField(ref, ty, st.Field(i))
		}
		return Mk(d, as...)
	}
	if at, ok := under(ty).(*types.Array); ok {
		n, so := arrHeap(at.Elem())
		return Select(s.get(n, so), ref)
	}
	n, so := cellHeap(ty)
	return Select(s.get(n, so), ref)
}

func (s *State) loadField(ref *Term, structT types.Type, f *types.Var) *Term {
	if _, ok := isStruct(f.Type()); ok {
		return s.loadObj(subObj(structT, f, ref), f.Type())
	}
	n, so := fieldHeap(structT, f)
	return Select(s.get(n, so), ref)
}

func (s *State) storeObj(ref *Term, ty types.Type, v *Term) {
	if st, ok := isStruct(ty); ok {
		d := structDT(ty)
		for i := 0; i < st.NumFields(); i++ {
			s.storeField(ref, ty, st.Field(i), Sel(d, i, v))
		}
		return
	}
	if at, ok := under(ty).(*types.Array); ok {
		n, so := arrHeap(at.Elem())
		s.set(n, Store(s.get(n, so), ref, v))
		return
	}
	n, so := cellHeap(ty)
	s.set(n, Store(s.get(n, so), ref, v))
}

func (s *State) storeField(ref *Term, structT types.Type, f *types.Var, v *Term) {
	if _, ok := isStruct(f.Type()); ok {
		s.storeObj(subObj(structT, f, ref), f.Type(), v)
		return
	}
	n, so := fieldHeap(structT, f)
	s.set(n, Store(s.get(n, so), ref, v))
}

func fieldType(t types.Type, i int) types.Type {
	return under(t).(*types.Struct).Field(i).Type()
}

func projPath(t *Term, root types.Type, path []int) *Term {
	ty := root
	for _, i := range path {
		t = Sel(structDT(ty), i, t)
		ty = fieldType(ty, i)
	}
	return t
}

func updPath(t *Term, root types.Type, path []int, v *Term) *Term {
	if len(path) == 0 {
		return v
	}
	d := structDT(root)
	st := under(root).(*types.Struct)
	as := make([]*Term, st.NumFields())
	for i := range as {
		as[i] = Sel(d, i, t)
	}
	as[path[0]] = updPath(as[path[0]], st.Field(path[0]).Type(), path[1:], v)
	return Mk(d, as...)
}

func (s *State) loadAddr(a *Addr) Value {
	switch a.kind {
	case 'L':
		v, ok := s.cells[a.cell]
		if !ok {
			panic(unsupported("load of dead local cell " + a.cell))
		}
		if len(a.path) == 0 {
			return v
		}
		return tv(projPath(s.x.term(s, v, a.root), a.root, a.path))
	case 'F':
		t := s.loadField(a.ref, a.structT, a.field)
		return tv(projPath(t, a.root, a.path))
	case 'E':
		n, so := arrHeap(a.elemT)
		t := Select(Select(s.get(n, so), a.ref), a.idx)
		return tv(projPath(t, a.root, a.path))
	case 'G':
		return tv(projPath(s.get(a.gname, sortOf(a.root)), a.root, a.path))
	}
	panic("loadAddr")
}

func (s *State) storeAddr(a *Addr, v Value) {
	switch a.kind {
	case 'L':
		if len(a.path) == 0 {
			s.cells[a.cell] = v
			return
		}
		old := s.x.term(s, s.cells[a.cell], a.root)
		s.cells[a.cell] = tv(updPath(old, a.root, a.path, s.x.term(s, v, a.typ)))
		return
	}
	t := s.x.term(s, v, a.typ)
	switch a.kind {
	case 'F':
		if len(a.path) > 0 {
			t = updPath(s.loadField(a.ref, a.structT, a.field), a.root, a.path, t)
		}
		s.storeField(a.ref, a.structT, a.field, t)
	case 'E':
		n, so := arrHeap(a.elemT)
		h := s.get(n, so)
		row := Select(h, a.ref)
		if len(a.path) > 0 {
			t = updPath(Select(row, a.idx), a.root, a.path, t)
		}
		s.set(n, Store(h, a.ref, Store(row, a.idx, t)))
	case 'G':
		if len(a.path) > 0 {
			t = updPath(s.get(a.gname, sortOf(a.root)), a.root, a.path, t)
		}
		s.set(a.gname, t)
	}
}

// newObj allocates a zeroed heap object of type ty.
func (s *State) newObj(ty types.Type, hint string) *Term {
	r := Fresh("new:"+hint, SRef)
	s.freshRef(r, ty, objKey(ty))
	s.storeObj(r, ty, zeroOf(ty))
	if logAllocs {
		n := s.get("log:"+objKey(ty)+".n", SInt)
		rn := "log:" + objKey(ty) + ".r"
		s.set(rn, Store(s.get(rn, ArrSort(SInt, SRef)), n, r))
		s.set("log:"+objKey(ty)+".n", Add(n, IntLit(1)))
	}
	return r
}

// logAllocs: the contract being checked mentions the order of allocations.
var logAllocs bool

func (s *State) freshRef(r *Term, ty types.Type, key string) {
	s.assume(hasDyn(r, key))
	al := s.alloc()
	s.assume(Not(Eq(r, nilRef)))
	s.assume(Not(Select(al, r)))
	s.assume(Eq(kindOf(r), IntLit(0)))
	na := Store(al, r, tTrue)
	if ty != nil {
		for _, sub := range subObjs(r, ty) {
			s.assume(Not(Select(al, sub)))
			na = Store(na, sub, tTrue)
		}
	}
	s.set(allocHeap, na)
	if s.owned == nil {
		s.owned = map[*Term]bool{}
	}
	s.owned[r] = true
}

func subObjs(r *Term, ty types.Type) []*Term {
	var out []*Term
	if st, ok := isStruct(ty); ok {
		for i := 0; i < st.NumFields(); i++ {
			f := st.Field(i)
			if s2, ok := isStruct(f.Type()); ok && s2.NumFields() > 0 {
				so := subObj(ty, f, r)
				out = append(out, so)
				out = append(out, subObjs(so, f.Type())...)
			}
		}
	}
	return out
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

func (s *State) pcString() string {
	out := ""
	for p := s.pc; p != nil; p = p.prev {
		out = fmt.Sprintln(p.t) + out
	}
	return out
}
