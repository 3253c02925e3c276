package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// SV is a specification value.
type SV struct {
	t   *Term
	ref *Term // address of a struct located in the heap (t == nil)
	ty  types.Type
	fn  Value // closures
}

// specArr is a mathematical array (total function) type used by ghost state.
type specArr struct{ k, v types.Type }

func (a *specArr) Underlying() types.Type { return a }
func (a *specArr) String() string         { return "[" + typeStr(a.k) + "]" + typeStr(a.v) }

type specNil struct{}

func (a *specNil) Underlying() types.Type { return a }
func (a *specNil) String() string         { return "nil" }

var (
	tyInt  = types.Typ[types.Int]
	tyBool = types.Typ[types.Bool]
	tyNil  = &specNil{}
)

type evalCtx struct {
	x      *Exec
	cur    *State
	old    *State
	pre    *State
	head   *State
	env    map[string]SV
	lc     *LoopCtx
	it     *Term
	phiVal func(p *ssa.Phi) Value
	hphi   func(p *ssa.Phi) Value
	tenv   map[string]types.Type
	targs  []types.Type
	pkg    *types.Package
	depth  int
	polar  int
	rigid  bool // no allocation guards: axioms and theorems
}

type evalErr struct{ msg string }

func (c *evalCtx) fail(f string, a ...any) {
	panic(evalErr{fmt.Sprintf(f, a...)})
}

func (c *evalCtx) with(m map[string]SV) *evalCtx {
	n := *c
	n.env = make(map[string]SV, len(c.env)+len(m))
	for k, v := range c.env {
		n.env[k] = v
	}
	for k, v := range m {
		n.env[k] = v
	}
	return &n
}

// Bool evaluates a boolean expression, converting panics to errors.
func (c *evalCtx) Bool(e *Expr) (t *Term, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case evalErr:
				err = fmt.Errorf("%s", r.msg)
			case unsupportedErr:
				err = r
			default:
				panic(r)
			}
		}
	}()
	sv := c.eval(e)
	t = c.term(sv)
	if t.sort != SBool {
		return nil, fmt.Errorf("not a boolean: %s", exprStr(e))
	}
	return t, nil
}

func (c *evalCtx) Val(e *Expr) (sv SV, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case evalErr:
				err = fmt.Errorf("%s", r.msg)
			case unsupportedErr:
				err = r
			default:
				panic(r)
			}
		}
	}()
	return c.eval(e), nil
}

func (c *evalCtx) term(v SV) *Term {
	if v.t != nil {
		return v.t
	}
	if v.ref != nil {
		return c.cur.loadObj(v.ref, v.ty)
	}
	if !v.fn.isZero() {
		return c.x.term(c.cur, v.fn, v.ty)
	}
	panic(evalErr{"no term"})
}

func (c *evalCtx) typ(te *TypeExpr) types.Type {
	switch te.op {
	case "ptr":
		return types.NewPointer(c.typ(te.args[0]))
	case "slice":
		return types.NewSlice(c.typ(te.args[0]))
	case "arr":
		return &specArr{c.typ(te.args[0]), c.typ(te.args[1])}
	case "map":
		return types.NewMap(c.typ(te.args[0]), c.typ(te.args[1]))
	case "func": // func(A, B) R
		var ps []*types.Var
		for _, a := range te.args[:len(te.args)-1] {
			ps = append(ps, types.NewParam(token.NoPos, nil, "", c.typ(a)))
		}
		r := types.NewTuple()
		if last := te.args[len(te.args)-1]; last != nil {
			r = types.NewTuple(types.NewParam(token.NoPos, nil, "", c.typ(last)))
		}
		return types.NewSignatureType(nil, nil, nil, types.NewTuple(ps...), r, false)
	}
	switch te.name {
	case "int":
		return tyInt
	case "bool":
		return tyBool
	case "int64":
		return types.Typ[types.Int64]
	case "uint32":
		return types.Typ[types.Uint32]
	case "string":
		return types.Typ[types.String]
	case "error":
		return types.Universe.Lookup("error").Type()
	case "any":
		return types.Universe.Lookup("any").Type()
	case "Ref":
		return types.Typ[types.UnsafePointer]
	case "struct{}":
		return types.NewStruct(nil, nil)
	}
	if t, ok := c.tenv[te.name]; ok {
		return t
	}
	pkg := c.pkg
	name := te.name
	if i := strings.IndexByte(name, '.'); i >= 0 {
		pkg = c.x.w.pkgByName(name[:i])
		name = name[i+1:]
	}
	if pkg == nil {
		c.fail("unknown type %s", te.name)
	}
	o := pkg.Scope().Lookup(name)
	tn, ok := o.(*types.TypeName)
	if !ok {
		c.fail("unknown type %s", te.name)
	}
	n, ok := types.Unalias(tn.Type()).(*types.Named)
	if !ok {
		return tn.Type()
	}
	np := n.TypeParams().Len()
	if np == 0 {
		return n
	}
	var args []types.Type
	if len(te.args) > 0 {
		for _, a := range te.args {
			args = append(args, c.typ(a))
		}
	} else {
		args = c.targs
		if len(args) > np {
			args = args[len(args)-np:]
		}
	}
	if len(args) != np {
		c.fail("type %s needs %d arguments, have %d", te.name, np, len(args))
	}
	r, err := types.Instantiate(typeCtx, n, args, false)
	if err != nil {
		c.fail("%v", err)
	}
	return r
}

func boolSV(t *Term) SV { return SV{t: t, ty: tyBool} }
func intSV(t *Term) SV  { return SV{t: t, ty: tyInt} }

func (c *evalCtx) coerce(a, b SV) (SV, SV) {
	if a.ty == tyNil && b.ty != tyNil {
		return SV{t: zeroOf(b.ty), ty: b.ty}, b
	}
	if b.ty == tyNil && a.ty != tyNil {
		return a, SV{t: zeroOf(a.ty), ty: a.ty}
	}
	return a, b
}

func (c *evalCtx) eq(a, b SV) *Term {
	an, bn := a.ty == tyNil, b.ty == tyNil
	if an && !bn {
		a, b = b, a
		bn = true
	}
	if bn && !an {
		t := c.term(a)
		if t.sort == "Slice" {
			return Eq(Sel(sliceDT, 0, t), nilRef)
		}
		return Eq(t, zeroOf(a.ty))
	}
	ta, tb := c.term(a), c.term(b)
	if ta.sort != tb.sort {
		if ta.sort == SIface && b.ty != nil {
			tb = c.x.mkIface(c.cur, tv(tb), b.ty)
		} else if tb.sort == SIface && a.ty != nil {
			ta = c.x.mkIface(c.cur, tv(ta), a.ty)
		} else {
			c.fail("== on different sorts %s, %s", ta.sort, tb.sort)
		}
	}
	return Eq(ta, tb)
}

func (c *evalCtx) eval(e *Expr) SV {
	switch e.op {
	case "int":
		return intSV(IntLitS(e.s))
	case "ident":
		return c.ident(e.s)
	case "let":
		v := c.eval(e.args[0])
		if v.ref == nil {
			v.t = c.term(v)
		}
		return c.with(map[string]SV{e.s: v}).eval(e.args[1])
	case "ite":
		t := c.term(c.eval(e.args[0]))
		a, b := c.coerce(c.eval(e.args[1]), c.eval(e.args[2]))
		return SV{t: Ite(t, c.term(a), c.term(b)), ty: a.ty}
	case "quant":
		m := map[string]SV{}
		var vs []*Term
		for _, v := range e.vars {
			ty := c.typ(v.typ)
			bv := BVar(v.name, sortOf(ty))
			vs = append(vs, bv)
			m[v.name] = SV{t: bv, ty: ty}
		}
		n := c.with(m)
		body := n.term(n.eval(e.args[0]))
		// references range over the objects allocated in the state at hand
		for i, v := range vs {
			if v.sort == SRef && !c.rigid && e.vars[i].typ.name != "Ref" && !c.isTypeVar(e.vars[i].typ) {
				g := And(Select(c.cur.alloc(), v), refTyped(v, m[e.vars[i].name].ty))
				if e.s == "forall" {
					body = Imp(g, body)
				} else {
					body = And(g, body)
				}
			}
		}
		var pats [][]*Term
		for _, p := range e.pats {
			var ps []*Term
			for _, x := range p {
				ps = append(ps, n.term(n.eval(x)))
			}
			pats = append(pats, ps)
		}
		// canonical names so that equal formulas are shared
		ren := map[*Term]*Term{}
		var cv []*Term
		for i, v := range vs {
			nv := NamedBVar(fmt.Sprintf("%s!q%d", e.vars[i].name, c.depthOf(body, v)), v.sort)
			ren[v] = nv
			cv = append(cv, nv)
		}
		body = Subst(body, ren)
		for i := range pats {
			for j := range pats[i] {
				pats[i][j] = Subst(pats[i][j], ren)
			}
		}
		if e.s == "forall" {
			return boolSV(absForall(cv, pats, body))
		}
		q := Exists(cv, body)
		if q.kind == 'q' {
			if len(pats) == 1 {
				// not(exists) is not(not(forall not)): the same restatement applies
				if f := absForall(cv, pats, Not(body)); f.kind == 'q' && f.op == "forall" {
					return boolSV(quant("exists", f.vars, f.pats, Not(f.args[0])))
				}
			}
			q = quant("exists", cv, pats, body)
		}
		return boolSV(q)
	case "un":
		v := c.eval(e.args[0])
		switch e.s {
		case "!":
			return boolSV(Not(c.term(v)))
		case "-":
			return intSV(Sub(IntLit(0), c.term(v)))
		case "*":
			p, ok := under(v.ty).(*types.Pointer)
			if e := atomicElem(v.ty); e != nil {
				p, ok = types.NewPointer(e), true
			}
			if !ok {
				c.fail("deref of non-pointer")
			}
			if _, ok := isStruct(p.Elem()); ok {
				return SV{ref: c.term(v), ty: p.Elem()}
			}
			return SV{t: c.cur.loadObj(c.term(v), p.Elem()), ty: p.Elem()}
		}
	case "addr":
		v := c.eval(e.args[0])
		if v.ref == nil {
			c.fail("cannot take address")
		}
		return SV{t: v.ref, ty: types.NewPointer(v.ty)}
	case "field":
		return c.field(e)
	case "index":
		a := c.eval(e.args[0])
		if e.args[0].op == "call" && e.args[0].s == "old" || e.args[0].op == "old" {
			if a.t != nil && a.t.sort == "Slice" {
				c.fail("old(slice)[i] reads the current contents: write old(slice[i]) or old(row(slice))[off(slice)+i]")
			}
		}
		return c.index(a, c.eval(e.args[1]))
	case "upd":
		a := c.eval(e.args[0])
		i := c.eval(e.args[1])
		v := c.eval(e.args[2])
		at := c.term(a)
		_, vs := arrParts(at.sort)
		if v.ty == tyNil {
			v.t = zeroOfSort(vs)
		}
		return SV{t: Store(at, c.term(i), c.term(v)), ty: a.ty}
	case "bin":
		return c.bin(e)
	case "call":
		return c.call(e)
	}
	c.fail("cannot evaluate %s", e.op)
	return SV{}
}

func zeroOfSort(s Sort) *Term {
	switch s {
	case SRef:
		return nilRef
	case SFn:
		return nilFn
	case SIface:
		return nilIface
	}
	panic(evalErr{"nil of sort " + string(s)})
}

// depthOf gives a canonical number for a bound variable: 1 + the maximal canonical
// number of quantifiers nested in the body.
func (c *evalCtx) depthOf(body, v *Term) int {
	d := 0
	seen := map[*Term]bool{}
	var w func(t *Term)
	w = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		for _, b := range t.vars {
			if i := strings.LastIndex(b.op, "!q"); i >= 0 {
				n := 0
				fmt.Sscan(b.op[i+2:], &n)
				if n > d {
					d = n
				}
			}
		}
		for _, a := range t.args {
			w(a)
		}
	}
	w(body)
	return d + 1
}

func (c *evalCtx) ident(s string) SV {
	if v, ok := c.env[s]; ok {
		return v
	}
	switch s {
	case "true":
		return boolSV(tTrue)
	case "false":
		return boolSV(tFalse)
	case "nil":
		return SV{t: nilRef, ty: tyNil}
	case "it":
		if c.it == nil {
			c.fail("it outside loop")
		}
		return intSV(c.it)
	case "it1":
		// counter of the enclosing loop
		if c.lc == nil {
			c.fail("it1 outside loop")
		}
		ls := c.cur.loops
		for i := len(ls) - 1; i >= 0; i-- {
			if ls[i] != c.lc && ls[i].key != c.lc.key {
				return intSV(ls[i].it)
			}
		}
		c.fail("no enclosing loop")
	case "visited":
		return c.visited(0)
	case "itkey":
		// the key of the current iteration of this loop's map range
		if c.lc == nil || len(c.lc.iters) == 0 {
			c.fail("itkey: no map range in this loop")
		}
		it := c.cur.iters[c.lc.iters[0]]
		if it == nil || it.key == nil {
			c.fail("itkey: no iteration under way")
		}
		kt, _ := mapKV(it.mt)
		return SV{t: it.key, ty: kt}
	case "visited1":
		// keys visited by the nearest enclosing map range
		if c.lc != nil {
			ls := c.cur.loops
			for i := len(ls) - 1; i >= 0; i-- {
				if ls[i].key != c.lc.key && len(ls[i].iters) > 0 {
					it := c.cur.iters[ls[i].iters[0]]
					if it == nil {
						break
					}
					kt, _ := mapKV(it.mt)
					return SV{t: c.cur.heap["V:"+ls[i].iters[0]], ty: &specArr{kt, tyBool}}
				}
			}
		}
		c.fail("visited1: no enclosing map range")
	case "clock":
		return intSV(c.cur.get("clock", SInt))
	case "expunged":
		return SV{t: c.cur.get("G:rwmap.expunged", SRef), ty: types.Typ[types.UnsafePointer]}
	}
	if g := c.x.w.spec.macros[c.pkgName()+"."+s]; g != nil && len(g.params) == 0 {
		return c.with(nil).eval(g.body)
	}
	if c.pkg != nil {
		if o, ok := c.pkg.Scope().Lookup(s).(*types.Var); ok {
			name := "G:" + c.pkg.Name() + "." + s
			if _, ok := isStruct(o.Type()); ok {
				return SV{ref: globRef(name), ty: o.Type()}
			}
			return SV{t: c.cur.get(name, sortOf(o.Type())), ty: o.Type()}
		}
	}
	c.fail("unknown identifier %s", s)
	return SV{}
}

func (c *evalCtx) visited(i int) SV {
	if c.lc == nil || len(c.lc.iters) <= i {
		c.fail("visited: no map range in this loop")
	}
	k := c.lc.iters[i]
	it := c.cur.iters[k]
	if it == nil {
		c.fail("visited: iterator not live")
	}
	kt, _ := mapKV(it.mt)
	return SV{t: c.cur.heap["V:"+k], ty: &specArr{kt, tyBool}}
}

func (c *evalCtx) pkgName() string {
	if c.pkg == nil {
		return ""
	}
	return c.pkg.Name()
}

func deref(t types.Type) (types.Type, bool) {
	if t == nil {
		return nil, false
	}
	if p, ok := under(t).(*types.Pointer); ok {
		return p.Elem(), true
	}
	return t, false
}

func (c *evalCtx) field(e *Expr) SV {
	b := e.args[0]
	// package-qualified global? pkg.name
	v := c.eval(b)
	if e := atomicElem(v.ty); e != nil {
		v = SV{t: c.term(v), ty: types.NewPointer(e)}
	}
	st, isPtr := deref(v.ty)
	var ref *Term
	if isPtr {
		ref = c.term(v)
	} else if v.ref != nil {
		ref = v.ref
	}
	if s, ok := isStruct(st); ok {
		for i := 0; i < s.NumFields(); i++ {
			f := s.Field(i)
			if f.Name() != e.s {
				continue
			}
			if ref != nil {
				if _, ok := isStruct(f.Type()); ok {
					return SV{ref: subObj(st, f, ref), ty: f.Type()}
				}
				return SV{t: c.cur.loadField(ref, st, f), ty: f.Type()}
			}
			return SV{t: Sel(structDT(st), i, c.term(v)), ty: f.Type()}
		}
	}
	if ref != nil {
		if name, so, ty, ok := c.x.ghostHeap(st, e.s); ok {
			return SV{t: Select(c.cur.get(name, so), ref), ty: ty}
		}
	}
	// ghost fields on map-typed or interface-typed values
	if n, ok := types.Unalias(v.ty).(*types.Named); ok {
		if name, so, ty, ok := c.x.ghostHeap(n, e.s); ok {
			return SV{t: Select(c.cur.get(name, so), c.term(v)), ty: ty}
		}
	}
	switch e.s {
	case "arr":
		if c.term(v).sort == "Slice" {
			return SV{t: Sel(sliceDT, 0, c.term(v)), ty: types.Typ[types.UnsafePointer]}
		}
	case "off":
		if c.term(v).sort == "Slice" {
			return intSV(Sel(sliceDT, 1, c.term(v)))
		}
	}
	c.fail("no field %s on %s", e.s, typeStr(v.ty))
	return SV{}
}

// ghostHeap resolves a ghost field of a named type.
func (x *Exec) ghostHeap(st types.Type, name string) (string, Sort, types.Type, bool) {
	n, ok := types.Unalias(st).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return "", "", nil, false
	}
	g := x.w.spec.ghosts[n.Obj().Pkg().Name()+"."+n.Obj().Name()+"."+name]
	if g == nil {
		return "", "", nil, false
	}
	ec := &evalCtx{x: x, pkg: n.Obj().Pkg(), tenv: map[string]types.Type{}}
	tp := n.Origin().TypeParams()
	for i := 0; i < tp.Len(); i++ {
		a := n.TypeArgs().At(i)
		ec.tenv[tp.At(i).Obj().Name()] = a
		ec.targs = append(ec.targs, a)
	}
	ty := ec.typ(g.te)
	key := SRef
	if _, ok := under(st).(*types.Interface); ok {
		key = SIface
	}
	if _, ok := under(st).(*types.Struct); ok {
		heapObj["GF:"+typeStr(st)+"."+name] = objKey(st)
	}
	return "GF:" + typeStr(st) + "." + name, ArrSort(key, sortOf(ty)), ty, true
}

func (c *evalCtx) index(a, i SV) SV {
	if sa, ok := a.ty.(*specArr); ok {
		if i.ty == tyNil {
			i.t = zeroOf(sa.k)
		}
		return SV{t: Select(c.term(a), c.term(i)), ty: sa.v}
	}
	ty := types.Unalias(a.ty)
	if tp, ok := ty.(*types.TypeParam); ok {
		if core := coreOf(tp); core != nil {
			ty = core
		}
	}
	switch u := ty.Underlying().(type) {
	case *types.Slice:
		arr, off, _, _ := sl(c.term(a))
		n, so := arrHeap(u.Elem())
		return SV{t: Select(Select(c.cur.get(n, so), arr), Add(off, c.term(i))), ty: u.Elem()}
	case *types.Map:
		vn, vs := mapValHeap(ty)
		return SV{t: Select(Select(c.cur.get(vn, vs), c.term(a)), c.term(i)), ty: u.Elem()}
	case *types.Array:
		return SV{t: Select(c.term(a), c.term(i)), ty: u.Elem()}
	}
	c.fail("cannot index %s", typeStr(a.ty))
	return SV{}
}

func (c *evalCtx) bin(e *Expr) SV {
	switch e.s {
	case "==":
		return boolSV(c.eq(c.eval(e.args[0]), c.eval(e.args[1])))
	case "!=":
		return boolSV(Not(c.eq(c.eval(e.args[0]), c.eval(e.args[1]))))
	case "&&":
		a := c.term(c.eval(e.args[0]))
		if a == tFalse {
			return boolSV(tFalse)
		}
		return boolSV(And(a, c.term(c.eval(e.args[1]))))
	case "||":
		return boolSV(Or(c.term(c.eval(e.args[0])), c.term(c.eval(e.args[1]))))
	case "==>":
		a := c.term(c.eval(e.args[0]))
		if a == tFalse {
			return boolSV(tTrue)
		}
		return boolSV(Imp(a, c.term(c.eval(e.args[1]))))
	case "<==>":
		return boolSV(Eq(c.term(c.eval(e.args[0])), c.term(c.eval(e.args[1]))))
	case "in", "!in":
		k, m := c.eval(e.args[0]), c.eval(e.args[1])
		var r *Term
		if sa, ok := m.ty.(*specArr); ok && sa.v == tyBool {
			if k.ty == tyNil {
				k.t = zeroOf(sa.k)
			}
			r = Select(c.term(m), c.term(k))
		} else {
			r = Select(c.term(c.dom(m)), c.term(k))
		}
		if e.s == "!in" {
			r = Not(r)
		}
		return boolSV(r)
	}
	av, bv := c.eval(e.args[0]), c.eval(e.args[1])
	a, b := c.term(av), c.term(bv)
	if a.sort != b.sort {
		c.fail("operands of %s have sorts %s, %s", e.s, a.sort, b.sort)
	}
	switch e.s {
	case "<":
		return boolSV(ltOf(av.ty, a, b))
	case ">":
		return boolSV(ltOf(av.ty, b, a))
	case "<=":
		if a.sort == SInt {
			return boolSV(Le(a, b))
		}
		return boolSV(Not(ltOf(av.ty, b, a)))
	case ">=":
		if a.sort == SInt {
			return boolSV(Le(b, a))
		}
		return boolSV(Not(ltOf(av.ty, a, b)))
	case "+":
		return SV{t: Add(a, b), ty: av.ty}
	case "-":
		return SV{t: Sub(a, b), ty: av.ty}
	case "*":
		return SV{t: Mul(a, b), ty: av.ty}
	case "/":
		return SV{t: builtin("div", SInt, a, b), ty: av.ty}
	case "%":
		return SV{t: builtin("mod", SInt, a, b), ty: av.ty}
	}
	c.fail("operator %s", e.s)
	return SV{}
}

func (c *evalCtx) dom(m SV) SV {
	if m.ty == nil {
		c.fail("dom of untyped")
	}
	kt, _ := mapKV(m.ty)
	dn, ds := mapDomHeap(m.ty)
	return SV{t: Select(c.cur.get(dn, ds), c.term(m)), ty: &specArr{kt, tyBool}}
}

func isMapType(t types.Type) bool {
	if t == nil {
		return false
	}
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		if t = coreOf(tp); t == nil {
			return false
		}
	}
	_, ok := t.Underlying().(*types.Map)
	return ok
}

// appFn is the result of a pure function value applied to arguments.
func appFn(f *Term, ret Sort, args ...*Term) *Term {
	name := "app"
	all := []*Term{f}
	for _, a := range args {
		name += ":" + string(a.sort)
		all = append(all, a)
	}
	name += "=>" + string(ret)
	return App(name, ret, all...)
}

func traceName(f *Term) string {
	if len(f.args) > 0 {
		return "T:" + strings.ReplaceAll(f.String(), "|", "")
	}
	return "T:" + f.op
}

func (c *evalCtx) call(e *Expr) SV {
	arg := func(i int) SV { return c.eval(e.args[i]) }
	switch e.s {
	case "old":
		if c.old == nil {
			c.fail("old() not available")
		}
		n := *c
		n.cur = c.old
		return c.x.freeze(&n, n.eval(e.args[0]))
	case "pre":
		if c.pre == nil {
			c.fail("pre() outside loop")
		}
		n := *c
		n.cur = c.pre
		return c.x.freeze(&n, n.eval(e.args[0]))
	case "pre0":
		// state before the outermost enclosing loop, or before this loop
		if c.lc == nil {
			c.fail("pre0() outside loop")
		}
		n := *c
		n.cur = c.pre
		if len(c.cur.loops) > 0 {
			n.cur = c.cur.loops[0].pre
		}
		return c.x.freeze(&n, n.eval(e.args[0]))
	case "head":
		if c.head == nil {
			c.fail("head() only in loop ghost updates")
		}
		n := *c
		n.cur = c.head
		return c.x.freeze(&n, n.eval(e.args[0]))
	case "len":
		v := arg(0)
		if isMapType(v.ty) {
			return intSV(Card(c.term(c.dom(v))))
		}
		t := c.term(v)
		if t.sort == "Slice" {
			n := Sel(sliceDT, 2, t)
			if c.cur != nil && n.kind != 'i' && !(t.kind == 'b' && t.op == sliceDT.ctor) && !hasBVar(t) {
				c.cur.assumeOnce(Le(IntLit(0), n))
			}
			return intSV(n)
		}
		c.fail("len of %s", t.sort)
	case "arr":
		return SV{t: Sel(sliceDT, 0, c.term(arg(0))), ty: types.Typ[types.UnsafePointer]}
	case "off":
		return intSV(Sel(sliceDT, 1, c.term(arg(0))))
	case "cap":
		return intSV(Sel(sliceDT, 3, c.term(arg(0))))
	case "dom":
		return c.dom(arg(0))
	case "vals":
		m := arg(0)
		kt, vt := mapKV(m.ty)
		vn, vs := mapValHeap(m.ty)
		return SV{t: Select(c.cur.get(vn, vs), c.term(m)), ty: &specArr{kt, vt}}
	case "row":
		v := arg(0)
		el := sliceElem(v.ty)
		n, so := arrHeap(el)
		return SV{t: Select(c.cur.get(n, so), Sel(sliceDT, 0, c.term(v))), ty: &specArr{tyInt, el}}
	case "rowof":
		// rowof(ref, sliceForType)
		v := arg(1)
		el := sliceElem(v.ty)
		n, so := arrHeap(el)
		return SV{t: Select(c.cur.get(n, so), c.term(arg(0))), ty: &specArr{tyInt, el}}
	case "card":
		return intSV(Card(c.term(arg(0))))
	case "finite":
		return boolSV(Finite(c.term(arg(0))))
	case "emptyset":
		k := c.typ(e.vars[0].typ)
		ty := &specArr{k, tyBool}
		return SV{t: ConstArr(sortOf(ty), tFalse), ty: ty}
	case "zero":
		ty := c.typ(e.vars[0].typ)
		return SV{t: zeroOf(ty), ty: ty}
	case "nallocs":
		// how many objects of a type were allocated
		return intSV(c.cur.get("log:"+objKey(c.typ(e.vars[0].typ))+".n", SInt))
	case "allocated":
		// the k-th of them
		ty := c.typ(e.vars[0].typ)
		return SV{t: Select(c.cur.get("log:"+objKey(ty)+".r", ArrSort(SInt, SRef)), c.term(arg(0))), ty: types.NewPointer(ty)}
	case "istype", "dynval":
		// the dynamic type of an interface value, and the value in it
		v := c.term(arg(0))
		ty := c.typ(e.vars[0].typ)
		un := App("uniface:"+typeStr(ty), sortOf(ty), v)
		mk := c.x.mkIface(c.cur, tv(un), ty)
		if e.s == "dynval" {
			return SV{t: un, ty: ty}
		}
		return boolSV(Eq(mk, v))
	case "zeroval":
		v := arg(0)
		return SV{t: zeroOf(v.ty), ty: v.ty}
	case "alloc":
		v := arg(0)
		t := v.t
		if v.ref != nil {
			t = v.ref
		}
		if t.sort == "Slice" {
			t = Sel(sliceDT, 0, t)
		}
		g := Select(c.cur.alloc(), t)
		if len(e.vars) > 0 {
			return boolSV(And(g, refTyped(t, c.typ(e.vars[0].typ))))
		}
		if v.ref == nil && v.ty != nil && v.t.sort == SRef {
			g = And(g, refTyped(t, v.ty))
		}
		return boolSV(g)
	case "fresh":
		v := arg(0)
		t := c.term(v)
		if t.sort == "Slice" {
			t = Sel(sliceDT, 0, t)
		}
		typed := tTrue
		if t.sort == SRef && v.ty != nil && v.t != nil {
			typed = refTyped(t, v.ty)
		}
		return boolSV(And(Not(Select(c.old.alloc(), t)), Select(c.cur.alloc(), t), Not(Eq(t, nilRef)), typed))
	case "owned":
		// not an interior sub-object
		return boolSV(Eq(kindOf(c.term(arg(0))), IntLit(0)))
	case "app":
		f := arg(0)
		var as []*Term
		for i := 1; i < len(e.args); i++ {
			as = append(as, c.term(arg(i)))
		}
		sig, ok := under(f.ty).(*types.Signature)
		if !ok {
			c.fail("app of non-function")
		}
		ret := sig.Results().At(0).Type()
		return SV{t: appFn(c.term(f), sortOf(ret), as...), ty: ret}
	case "ncalls":
		return intSV(c.cur.get(traceName(c.term(arg(0)))+".n", SInt))
	case "callarg":
		f := arg(0)
		k := 0
		if len(e.args) > 2 {
			fmt.Sscan(e.args[2].s, &k)
		}
		sig := under(f.ty).(*types.Signature)
		pt := sig.Params().At(k).Type()
		return SV{t: Select(c.cur.get(fmt.Sprintf("%s.a%d", traceName(c.term(f)), k), ArrSort(SInt, sortOf(pt))), c.term(arg(1))), ty: pt}
	case "callres":
		f := arg(0)
		k := 0
		if len(e.args) > 2 {
			fmt.Sscan(e.args[2].s, &k)
		}
		sig := under(f.ty).(*types.Signature)
		pt := sig.Results().At(k).Type()
		return SV{t: Select(c.cur.get(fmt.Sprintf("%s.r%d", traceName(c.term(f)), k), ArrSort(SInt, sortOf(pt))), c.term(arg(1))), ty: pt}
	case "calltime":
		// the clock when call j returned
		return intSV(Select(c.cur.get(traceName(c.term(arg(0)))+".t", ArrSort(SInt, SInt)), c.term(arg(1))))
	case "callpanic":
		f := arg(0)
		return boolSV(Select(c.cur.get(traceName(c.term(f))+".p", ArrSort(SInt, SBool)), c.term(arg(1))))
	case "held":
		v := arg(0)
		return boolSV(c.term(v))
	case "visitedn":
		n := 0
		fmt.Sscan(e.args[0].s, &n)
		return c.visited(n)
	case "mod":
		return intSV(builtin("mod", SInt, c.term(arg(0)), c.term(arg(1))))
	case "div":
		return intSV(builtin("div", SInt, c.term(arg(0)), c.term(arg(1))))
	case "tdiv":
		return intSV(TDiv(c.term(arg(0)), c.term(arg(1))))
	case "addrof":
		return intSV(addrOf(c.term(arg(0))))
	case "withval":
		return SV{t: App("context.WithValue", SIface, c.term(arg(0)), c.term(arg(1)), c.term(arg(2))), ty: arg(0).ty}
	case "iface":
		v := arg(0)
		return SV{t: c.x.mkIface(c.cur, tv(c.term(v)), v.ty), ty: types.Universe.Lookup("any").Type()}
	case "same":
		// same(heap...) : the named heap is unchanged since entry
		var cs []*Term
		for _, a := range e.args {
			nm := exprStr(a)
			for _, h := range c.x.resolveHeaps(c, nm) {
				cs = append(cs, Eq(c.cur.get(h.name, h.sort), c.old.get(h.name, h.sort)))
			}
		}
		return boolSV(And(cs...))
	}
	pk := c.pkgName()
	name := e.s
	if i := strings.IndexByte(name, '.'); i >= 0 {
		if m := c.x.w.spec.macros[name]; m != nil {
			return c.macro(m, c.x.w.pkgByName(name[:i]), e)
		}
		if u := c.x.w.spec.ufuns[name]; u != nil {
			return c.ufun(name[:i], u, e)
		}
		c.fail("unknown function %s", name)
	}
	if m := c.x.w.spec.macros[pk+"."+name]; m != nil {
		return c.macro(m, c.pkg, e)
	}
	if u := c.x.w.spec.ufuns[pk+"."+name]; u != nil {
		return c.ufun(pk, u, e)
	}
	// other packages: unique match
	var found *Macro
	var fp string
	for k, m := range c.x.w.spec.macros {
		if strings.HasSuffix(k, "."+name) {
			if found != nil {
				c.fail("ambiguous macro %s", name)
			}
			found, fp = m, strings.TrimSuffix(k, "."+name)
		}
	}
	if found != nil {
		return c.macro(found, c.x.w.pkgByName(fp), e)
	}
	for k, u := range c.x.w.spec.ufuns {
		if strings.HasSuffix(k, "."+name) {
			return c.ufun(strings.TrimSuffix(k, "."+name), u, e)
		}
	}
	c.fail("unknown function %s", e.s)
	return SV{}
}

func (c *evalCtx) macro(m *Macro, pkg *types.Package, e *Expr) SV {
	if len(m.params) != len(e.args) {
		c.fail("macro %s: %d args, want %d", m.name, len(e.args), len(m.params))
	}
	if c.depth > 40 {
		c.fail("macro recursion %s", m.name)
	}
	n := *c
	n.depth++
	n.env = map[string]SV{}
	if pkg != nil {
		n.pkg = pkg
	}
	set := false
	for i, p := range m.params {
		v := c.eval(e.args[i])
		if v.ref == nil && v.ty != tyNil {
			v.t = c.term(v)
		}
		n.env[p] = v
		t, _ := deref(v.ty)
		if nm, ok := types.Unalias(orNil(t)).(*types.Named); ok && !set && nm.Obj().Pkg() == pkg && nm.TypeArgs() != nil && nm.TypeArgs().Len() > 0 {
			set = true
			n.targs = nil
			n.tenv = map[string]types.Type{}
			for k, v := range c.tenv {
				n.tenv[k] = v
			}
			tp := nm.Origin().TypeParams()
			for j := 0; j < nm.TypeArgs().Len(); j++ {
				n.targs = append(n.targs, nm.TypeArgs().At(j))
				n.tenv[tp.At(j).Obj().Name()] = nm.TypeArgs().At(j)
			}
		}
	}
	return n.eval(m.body)
}

func orNil(t types.Type) types.Type {
	if t == nil {
		return tyInt
	}
	return t
}

func (c *evalCtx) ufun(pk string, u *UFun, e *Expr) SV {
	var as []*Term
	name := "uf:" + pk + "." + u.name
	n := *c
	n.env = map[string]SV{}
	n.rigid = true
	if len(u.tps) > 0 || pk != c.pkgName() {
		n.pkg = c.x.w.pkgByName(pk)
		n.tenv = map[string]types.Type{}
		n.targs = nil
	}
	var vals []SV
	for i := range e.args {
		v := c.eval(e.args[i])
		vals = append(vals, v)
		if v.ty != tyNil && i < len(u.params) {
			n.unify(u, u.params[i], v.ty)
		}
	}
	for _, t := range u.tps {
		if a := n.tenv[t]; a != nil {
			n.targs = append(n.targs, a)
		} else {
			c.fail("%s: type parameter %s is not determined", u.name, t)
		}
	}
	for i, v := range vals {
		if v.ty == tyNil {
			v.t = zeroOf(n.typ(u.params[i]))
		}
		t := c.term(v)
		as = append(as, t)
		name += ":" + string(t.sort)
	}
	rt := n.typ(u.ret)
	so := sortOf(rt)
	name += "=>" + string(so)
	r := App(name, so, as...)
	if len(u.axioms) > 0 && len(symDecl[name].axioms) == 0 {
		symDecl[name].axioms = []*Term{tTrue}
		for _, a := range u.axioms {
			t := n.term(n.eval(a.e))
			if a.kind == "theorem" {
				n.theorem(a, name, t)
			}
			Axiom(name, t)
		}
	}
	return SV{t: r, ty: rt}
}

// theorem records the proof obligation of a theorem: it may use the axioms and
// the theorems before it, and itself below the induction variable.
func (c *evalCtx) theorem(a *Clause, sym string, t *Term) {
	if _, ok := theoremNo[t]; ok {
		return
	}
	no := len(theoremNo)
	theoremNo[t] = no
	vc := &VC{fn: c.x.c.key, kind: "theorem", name: a.label, goal: t, text: a.text, theorem: no + 1}
	e := a.e
	if e.op == "quant" && e.s == "forall" {
		// the variables become constants; the hints only mention terms
		m := map[string]SV{}
		for _, v := range e.vars {
			ty := c.typ(v.typ)
			m[v.name] = SV{t: Const(fmt.Sprintf("th%d:%s", no, v.name), sortOf(ty)), ty: ty}
		}
		g := c.with(m)
		vc.goal = g.term(g.eval(e.args[0]))
		for i, h := range a.hints {
			t := g.term(g.eval(h))
			vc.goal = Imp(Eq(Const(fmt.Sprintf("th%d:hint%d", no, i), t.sort), t), vc.goal)
		}
		if a.indVar != "" {
			id := func(s string) *Expr { return &Expr{op: "ident", s: s} }
			hyp := *e
			hyp.args = []*Expr{{op: "bin", s: "==>", args: []*Expr{{op: "bin", s: "&&", args: []*Expr{
				{op: "bin", s: "<=", args: []*Expr{{op: "int", s: "0"}, id(a.indVar)}},
				{op: "bin", s: "<", args: []*Expr{id(a.indVar), id("$ind")}}}}, e.args[0]}}}
			n := c.with(map[string]SV{"$ind": m[a.indVar]})
			vc.goal = Imp(n.term(n.eval(&hyp)), vc.goal)
		}
	} else if a.indVar != "" {
		c.fail("induction on something else than forall")
	}
	theoremVCs = append(theoremVCs, vc)
}

var theoremNo = map[*Term]int{}
var theoremVCs []*VC

// unify determines the type parameters of a specification function.
func (c *evalCtx) unify(u *UFun, te *TypeExpr, ty types.Type) {
	if ty == nil {
		return
	}
	ty = types.Unalias(ty)
	switch te.op {
	case "ptr":
		if p, ok := ty.Underlying().(*types.Pointer); ok {
			c.unify(u, te.args[0], p.Elem())
		}
		return
	case "slice":
		if p, ok := ty.Underlying().(*types.Slice); ok {
			c.unify(u, te.args[0], p.Elem())
		}
		return
	case "arr":
		if p, ok := ty.(*specArr); ok {
			c.unify(u, te.args[0], p.k)
			c.unify(u, te.args[1], p.v)
		}
		return
	case "map":
		if p, ok := ty.Underlying().(*types.Map); ok {
			c.unify(u, te.args[0], p.Key())
			c.unify(u, te.args[1], p.Elem())
		}
		return
	}
	for _, t := range u.tps {
		if t == te.name && len(te.args) == 0 {
			if c.tenv[t] == nil {
				c.tenv[t] = ty
			}
			return
		}
	}
	if n, ok := ty.(*types.Named); ok && n.TypeArgs() != nil {
		for i := 0; i < n.TypeArgs().Len() && i < len(te.args); i++ {
			c.unify(u, te.args[i], n.TypeArgs().At(i))
		}
	}
}

// isTypeVar: quantification over a type parameter ranges over all its values.
func (c *evalCtx) isTypeVar(te *TypeExpr) bool {
	return te.op == "name" && len(te.args) == 0 && c.tenv[te.name] != nil
}

// freeze makes a struct location read in another state independent of the state switch.
func (x *Exec) freeze(c *evalCtx, v SV) SV {
	if v.ref != nil {
		return SV{t: c.term(v), ty: v.ty}
	}
	return v
}

func exprStr(e *Expr) string {
	switch e.op {
	case "ident", "int":
		return e.s
	case "field":
		return exprStr(e.args[0]) + "." + e.s
	case "call":
		var as []string
		for _, a := range e.args {
			as = append(as, exprStr(a))
		}
		return e.s + "(" + strings.Join(as, ",") + ")"
	case "index":
		return exprStr(e.args[0]) + "[" + exprStr(e.args[1]) + "]"
	case "bin":
		return exprStr(e.args[0]) + e.s + exprStr(e.args[1])
	}
	return e.op + e.s
}

// ---------------------------------------------------------------- heaps named by modifies clauses

type heapRef struct {
	name string
	sort Sort
}

// noAlloc: every object of the named type that is allocated in nw was so in old

func (c *evalCtx) noAlloc(ty string, old, nw *Term) *Term {
	ts, err := lex(ty)
	if err != nil {
		c.fail("%s", err)
	}
	p := &parser{ts: ts, src: ty}
	key := objKey(c.typ(p.typeExpr()))
	r := NamedBVar("r!na", SRef)
	return Forall([]*Term{r}, [][]*Term{{Select(nw, r)}}, Imp(And(Select(nw, r), hasDyn(r, key)), Select(old, r)))
}

// resolveHeaps maps "Element.next", "map[K]V", "[]T", "cell T", "alloc", "trace f" to heap variables.
func (x *Exec) resolveHeaps(c *evalCtx, s string) []heapRef {
	s = strings.TrimSpace(s)
	switch {
	case s == "alloc":
		return []heapRef{{allocHeap, allocSort}}
	case s == "clock":
		return []heapRef{{"clock", SInt}}
	case strings.HasPrefix(s, "trace "):
		fe, err := parseExpr(strings.TrimSpace(s[6:]))
		if err != nil {
			c.fail("%s", err)
		}
		f := c.eval(fe)
		sig := under(f.ty).(*types.Signature)
		return traceHeaps(c.term(f), sig)
	case strings.HasPrefix(s, "map["), strings.HasPrefix(s, "[]"):
		ts, _ := lex(s)
		p := &parser{ts: ts, src: s}
		ty := c.typ(p.typeExpr())
		if isMapType(ty) {
			a, as := mapDomHeap(ty)
			b, bs := mapValHeap(ty)
			return []heapRef{{a, as}, {b, bs}}
		}
		a, as := arrHeap(sliceElem(ty))
		return []heapRef{{a, as}}
	case strings.HasPrefix(s, "cell "):
		ts, _ := lex(s[5:])
		p := &parser{ts: ts, src: s}
		a, as := cellHeap(c.typ(p.typeExpr()))
		return []heapRef{{a, as}}
	}
	i := strings.LastIndexByte(s, '.')
	if i >= 0 && strings.LastIndexByte(s, ']') > i || i >= 0 && !strings.Contains(s[:i], ".") && !strings.Contains(s[:i], "[") && c.x.w.pkgs[s[:i]] != nil && s[:i] != c.pkgName() {
		i = -1 // the dot belongs to a package qualifier
	}
	if i < 0 {
		// whole map-typed named type: "Set"
		ts, _ := lex(s)
		p := &parser{ts: ts, src: s}
		ty := c.typ(p.typeExpr())
		if isMapType(ty) {
			a, as := mapDomHeap(ty)
			b, bs := mapValHeap(ty)
			return []heapRef{{a, as}, {b, bs}}
		}
		if st, ok := isStruct(ty); ok {
			var out []heapRef
			for j := 0; j < st.NumFields(); j++ {
				out = append(out, x.fieldHeaps(ty, st.Field(j))...)
			}
			return out
		}
		panic(evalErr{"modifies " + s})
	}
	ts, _ := lex(s[:i])
	p := &parser{ts: ts, src: s}
	ty := c.typ(p.typeExpr())
	fn := s[i+1:]
	if st, ok := isStruct(ty); ok {
		for j := 0; j < st.NumFields(); j++ {
			if st.Field(j).Name() == fn {
				return x.fieldHeaps(ty, st.Field(j))
			}
		}
	}
	if n, so, _, ok := x.ghostHeap(ty, fn); ok {
		return []heapRef{{n, so}}
	}
	panic(evalErr{"modifies: unknown " + s})
}

func (x *Exec) fieldHeaps(ty types.Type, f *types.Var) []heapRef {
	if st, ok := isStruct(f.Type()); ok {
		var out []heapRef
		for j := 0; j < st.NumFields(); j++ {
			out = append(out, x.fieldHeaps(f.Type(), st.Field(j))...)
		}
		return out
	}
	n, so := fieldHeap(ty, f)
	return []heapRef{{n, so}}
}

func traceHeaps(f *Term, sig *types.Signature) []heapRef {
	tn := traceName(f)
	out := []heapRef{{tn + ".n", SInt}, {tn + ".p", ArrSort(SInt, SBool)}, {tn + ".t", ArrSort(SInt, SInt)}}
	for i := 0; i < sig.Params().Len(); i++ {
		out = append(out, heapRef{fmt.Sprintf("%s.a%d", tn, i), ArrSort(SInt, sortOf(sig.Params().At(i).Type()))})
	}
	for i := 0; i < sig.Results().Len(); i++ {
		out = append(out, heapRef{fmt.Sprintf("%s.r%d", tn, i), ArrSort(SInt, sortOf(sig.Results().At(i).Type()))})
	}
	return out
}

type modRef struct {
	heapRef
	scoped bool
	refs   []*Term
}

// modHeaps resolves a modifies clause in ctx; references are read in ctx.old.
func (x *Exec) modHeaps(c *evalCtx, ms []*Modifies) (out []modRef, err error) {
	defer func() {
		if r := recover(); r != nil {
			switch r := r.(type) {
			case evalErr:
				err = fmt.Errorf("%s", r.msg)
			case perr:
				err = fmt.Errorf("%s", r.msg)
			case unsupportedErr:
				err = r
			default:
				panic(r)
			}
		}
	}()
	oc := *c
	oc.cur = c.old
	idx := map[string]int{}
	for _, m := range ms {
		var refs []*Term
		for _, r := range m.refs {
			t := oc.term(oc.eval(r))
			if t.sort == "Slice" {
				t = Sel(sliceDT, 0, t)
			}
			if t.sort != SRef && t.sort != SIface {
				return nil, fmt.Errorf("modifies reference of sort %s", t.sort)
			}
			refs = append(refs, t)
		}
		for _, h := range x.resolveHeaps(c, m.heap) {
			if i, ok := idx[h.name]; ok {
				if !m.scoped {
					out[i].scoped = false
				}
				out[i].refs = append(out[i].refs, refs...)
				continue
			}
			idx[h.name] = len(out)
			out = append(out, modRef{h, m.scoped, refs})
		}
	}
	return out, nil
}

// unchangedOutside: objects allocated in the old state and not listed keep
// their value.
//
// As a goal this is asked of objects of the right type only; assumed after a
// call it is taken for every reference, because no contract ever speaks of
// what a heap holds at references of another type.
func (m modRef) unchangedOutside(alloc, old, cur *Term, goal bool) *Term {
	ks, _ := arrParts(old.sort)
	r := NamedBVar("r!fr", ks)
	var g []*Term
	if ks == SRef {
		g = append(g, Select(alloc, r))
	}
	if goal && ks == SRef {
		g = append(g, rightType(m.name, r))
	}
	for _, f := range m.refs {
		g = append(g, Not(Eq(r, f)))
	}
	return Forall([]*Term{r}, [][]*Term{{Select(cur, r)}, {Select(old, r)}}, Imp(And(g...), Eq(Select(cur, r), Select(old, r))))
}
