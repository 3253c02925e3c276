package main

import (
	"fmt"
	"go/types"
	"strings"
)

// Sigma substitutes type parameters.
type Sigma map[*types.TypeParam]types.Type

func substType(t types.Type, s Sigma) types.Type {
	if len(s) == 0 || t == nil {
		return t
	}
	switch t := t.(type) {
	case *types.TypeParam:
		if r, ok := s[t]; ok {
			return r
		}
		return t
	case *types.Pointer:
		e := substType(t.Elem(), s)
		if e == t.Elem() {
			return t
		}
		return types.NewPointer(e)
	case *types.Slice:
		e := substType(t.Elem(), s)
		if e == t.Elem() {
			return t
		}
		return types.NewSlice(e)
	case *types.Array:
		e := substType(t.Elem(), s)
		if e == t.Elem() {
			return t
		}
		return types.NewArray(e, t.Len())
	case *types.Map:
		k, e := substType(t.Key(), s), substType(t.Elem(), s)
		if k == t.Key() && e == t.Elem() {
			return t
		}
		return types.NewMap(k, e)
	case *types.Chan:
		e := substType(t.Elem(), s)
		if e == t.Elem() {
			return t
		}
		return types.NewChan(t.Dir(), e)
	case *types.Named:
		ta := t.TypeArgs()
		if ta == nil || ta.Len() == 0 {
			return t
		}
		args := make([]types.Type, ta.Len())
		ch := false
		for i := range args {
			args[i] = substType(ta.At(i), s)
			ch = ch || args[i] != ta.At(i)
		}
		if !ch {
			return t
		}
		r, err := types.Instantiate(typeCtx, t.Origin(), args, false)
		if err != nil {
			panic(err)
		}
		return r
	case *types.Alias:
		return substType(types.Unalias(t), s)
	case *types.Tuple:
		vs := make([]*types.Var, t.Len())
		for i := range vs {
			v := t.At(i)
			vs[i] = types.NewVar(v.Pos(), v.Pkg(), v.Name(), substType(v.Type(), s))
		}
		return types.NewTuple(vs...)
	case *types.Signature:
		p := substType(t.Params(), s).(*types.Tuple)
		r := substType(t.Results(), s).(*types.Tuple)
		return types.NewSignatureType(nil, nil, nil, p, r, t.Variadic())
	case *types.Struct:
		fs := make([]*types.Var, t.NumFields())
		ch := false
		for i := range fs {
			f := t.Field(i)
			nt := substType(f.Type(), s)
			ch = ch || nt != f.Type()
			fs[i] = types.NewField(f.Pos(), f.Pkg(), f.Name(), nt, f.Embedded())
		}
		if !ch {
			return t
		}
		return types.NewStruct(fs, nil)
	}
	return t
}

var typeCtx = types.NewContext()

func qual(p *types.Package) string { return p.Name() }

func typeStr(t types.Type) string {
	return types.TypeString(types.Unalias(t), qual)
}

func under(t types.Type) types.Type { return types.Unalias(t).Underlying() }

func isNamed(t types.Type, path, name string) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok {
		return false
	}
	o := n.Origin().Obj()
	return o.Name() == name && o.Pkg() != nil && o.Pkg().Path() == path
}

// specialScalar reports types that are modelled as a single mutable scalar slot.
func specialScalar(t types.Type) (Sort, bool) {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return "", false
	}
	switch n.Obj().Pkg().Path() {
	case "sync/atomic":
		switch n.Obj().Name() {
		case "Pointer":
			return SRef, true
		case "Int64", "Int32", "Uint32", "Uint64":
			return SInt, true
		case "Bool":
			return SBool, true
		}
	case "sync":
		switch n.Obj().Name() {
		case "Mutex", "RWMutex":
			return SBool, true
		case "Once":
			return SBool, true
		}
	case "time":
		if n.Obj().Name() == "Time" {
			return SInt, true // nanoseconds since the epoch
		}
	}
	return "", false
}

// isStruct: a plain struct type laid out field by field.
func isStruct(t types.Type) (*types.Struct, bool) {
	if t == nil {
		return nil, false
	}
	if _, ok := specialScalar(t); ok || opaqueType(t) {
		return nil, false
	}
	s, ok := under(t).(*types.Struct)
	return s, ok
}

func userSort(name string) Sort {
	s := Sort(quoteSym(name))
	userSorts[s] = true
	return s
}

func init() {
	userSorts[SRef], userSorts[SFn], userSorts[SIface], userSorts[SStr], userSorts[SFlt] = true, true, true, true, true
}

var nilRef = Const("nil", SRef)
var nilFn = Const("nilFn", SFn)
var nilIface = Const("nilIface", SIface)
var emptyStr = Const("emptyStr", SStr)

var sliceDT = DeclareDT("Slice", "mk-slice", []string{"s-arr", "s-off", "s-len", "s-cap"}, []Sort{SRef, SInt, SInt, SInt})

func sortOf(t types.Type) Sort {
	t = types.Unalias(t)
	if sa, ok := t.(*specArr); ok {
		return ArrSort(sortOf(sa.k), sortOf(sa.v))
	}
	if s, ok := specialScalar(t); ok {
		return s
	}
	if opaqueType(t) {
		return userSort("O:" + typeStr(t))
	}
	if tp, ok := t.(*types.TypeParam); ok {
		// a type parameter whose core type is a slice/map is represented by it
		if c := coreOf(tp); c != nil {
			return sortOf(c)
		}
		return userSort("T:" + tp.Obj().Name())
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsInteger != 0:
			return SInt
		case u.Info()&types.IsBoolean != 0:
			return SBool
		case u.Info()&types.IsString != 0:
			return SStr
		case u.Info()&types.IsFloat != 0:
			return SFlt
		case u.Kind() == types.UnsafePointer, u.Kind() == types.UntypedNil:
			return SRef
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return SRef
	case *types.Slice:
		return "Slice"
	case *types.Signature:
		return SFn
	case *types.Interface:
		return SIface
	case *types.Array:
		return ArrSort(SInt, sortOf(u.Elem()))
	case *types.Struct:
		return structDT(t).name
	}
	panic(unsupported("sort of type " + typeStr(t)))
}

// coreOf returns the single underlying type of a type parameter constraint like ~[]E, or nil
func coreOf(tp *types.TypeParam) types.Type {
	iface, ok := tp.Constraint().Underlying().(*types.Interface)
	if !ok {
		return nil
	}
	for i := 0; i < iface.NumEmbeddeds(); i++ {
		if u, ok := iface.EmbeddedType(i).(*types.Union); ok && u.Len() == 1 {
			return u.Term(0).Type().Underlying()
		}
	}
	return nil
}

func structDT(t types.Type) *DT {
	name := typeStr(t)
	sn := Sort(quoteSym("S:" + name))
	if d, ok := dtypes[sn]; ok {
		return d
	}
	st := under(t).(*types.Struct)
	var fs []string
	var ss []Sort
	for i := 0; i < st.NumFields(); i++ {
		f := st.Field(i)
		fs = append(fs, quoteSym(fmt.Sprintf("sel:%s.%d.%s", name, i, f.Name())))
		ss = append(ss, sortOf(f.Type()))
	}
	return DeclareDT(sn, quoteSym("mk:"+name), fs, ss)
}

func zeroOf(t types.Type) *Term {
	t = types.Unalias(t)
	if s, ok := specialScalar(t); ok {
		switch s {
		case SRef:
			return nilRef
		case SInt:
			return IntLit(0)
		case SBool:
			return tFalse
		}
	}
	if opaqueType(t) {
		return Const("zero:"+typeStr(t), sortOf(t))
	}
	if tp, ok := t.(*types.TypeParam); ok {
		if c := coreOf(tp); c != nil {
			return zeroOf(c)
		}
		return Const("zero:"+tp.Obj().Name(), sortOf(t))
	}
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch sortOf(t) {
		case SInt:
			return IntLit(0)
		case SBool:
			return tFalse
		case SStr:
			return emptyStr
		case SFlt:
			return Const("zeroFlt", SFlt)
		case SRef:
			return nilRef
		}
	case *types.Pointer, *types.Map, *types.Chan:
		return nilRef
	case *types.Slice:
		return Mk(sliceDT, nilRef, IntLit(0), IntLit(0), IntLit(0))
	case *types.Signature:
		return nilFn
	case *types.Interface:
		return nilIface
	case *types.Array:
		return ConstArr(sortOf(t), zeroOf(u.Elem()))
	case *types.Struct:
		d := structDT(t)
		var as []*Term
		for i := 0; i < u.NumFields(); i++ {
			as = append(as, zeroOf(u.Field(i).Type()))
		}
		return Mk(d, as...)
	}
	panic(unsupported("zero of " + typeStr(t)))
}

// ---- heap variable names

// heapObj records the type of the objects a heap describes.
var heapObj = map[string]string{}

// rightType: r is an object of the type heap name describes.
func rightType(name string, r *Term) *Term {
	switch {
	case strings.HasPrefix(name, "A:"):
		return hasDyn(r, name)
	case strings.HasPrefix(name, "MD:"), strings.HasPrefix(name, "MV:"):
		return hasDyn(r, "M:"+name[3:])
	case strings.HasPrefix(name, "C:"):
		return hasDyn(r, name[2:])
	}
	if k, ok := heapObj[name]; ok {
		return hasDyn(r, k)
	}
	return tTrue
}

func fieldHeap(structT types.Type, f *types.Var) (string, Sort) {
	heapObj["F:"+typeStr(structT)+"."+f.Name()] = objKey(structT)
	return "F:" + typeStr(structT) + "." + f.Name(), ArrSort(SRef, sortOf(f.Type()))
}
func cellHeap(t types.Type) (string, Sort) {
	return "C:" + typeStr(t), ArrSort(SRef, sortOf(t))
}
func arrHeap(elem types.Type) (string, Sort) {
	return "A:" + typeStr(elem), ArrSort(SRef, ArrSort(SInt, sortOf(elem)))
}
func mapKV(t types.Type) (types.Type, types.Type) {
	t = types.Unalias(t)
	if tp, ok := t.(*types.TypeParam); ok {
		t = coreOf(tp)
	}
	m := t.Underlying().(*types.Map)
	return m.Key(), m.Elem()
}
func mapDomHeap(t types.Type) (string, Sort) {
	k, v := mapKV(t)
	return "MD:" + typeStr(k) + "=>" + typeStr(v), ArrSort(SRef, ArrSort(sortOf(k), SBool))
}
func mapValHeap(t types.Type) (string, Sort) {
	k, v := mapKV(t)
	return "MV:" + typeStr(k) + "=>" + typeStr(v), ArrSort(SRef, ArrSort(sortOf(k), sortOf(v)))
}

const allocHeap = "alloc"

var allocSort = ArrSort(SRef, SBool)

// sub-object addresses -------------------------------------------------

var subKinds = map[string]int64{}

// dynamic types: dyn(r) is the type of the object at r
var dynIDs = map[string]int64{}

func dynID(key string) *Term {
	if _, ok := dynIDs[key]; !ok {
		dynIDs[key] = int64(len(dynIDs) + 1)
	}
	return IntLit(dynIDs[key])
}

// objKey names the type of an object; maps and arrays by their contents.
func objKey(ty types.Type) string {
	ty = types.Unalias(ty)
	if isMapType(ty) {
		k, v := mapKV(ty)
		return "M:" + typeStr(k) + "=>" + typeStr(v)
	}
	if a, ok := under(ty).(*types.Array); ok {
		return "A:" + typeStr(a.Elem())
	}
	return typeStr(ty)
}

func hasDyn(r *Term, key string) *Term { return Eq(App("dyn", SInt, r), dynID(key)) }

// refTyped: what the static type ty of a reference says about its object.
func refTyped(r *Term, ty types.Type) *Term {
	ty = types.Unalias(ty)
	if tp, ok := ty.(*types.TypeParam); ok {
		if c := coreOf(tp); c != nil {
			ty = c
		} else {
			return tTrue
		}
	}
	if isMapType(ty) {
		return hasDyn(r, objKey(ty))
	}
	if p, ok := under(ty).(*types.Pointer); ok {
		return hasDyn(r, objKey(p.Elem()))
	}
	return tTrue
}

func kindOf(r *Term) *Term { return App("kind", SInt, r) }

// subObj is the address of a struct-typed field inside the object at base.
func subObj(structT types.Type, f *types.Var, base *Term) *Term {
	name := "sub:" + typeStr(structT) + "." + f.Name()
	t := App(name, SRef, base)
	if _, ok := subKinds[name]; !ok {
		subKinds[name] = int64(len(subKinds) + 1)
		x := NamedBVar("x!sub", SRef)
		sx := App(name, SRef, x)
		inv := App("inv:"+name, SRef, sx)
		Axiom(name, Forall([]*Term{x}, [][]*Term{{sx}}, And(Eq(inv, x), Eq(kindOf(sx), IntLit(subKinds[name])), Not(Eq(sx, nilRef)), hasDyn(sx, objKey(f.Type())))))
	}
	return t
}

// cardinality of finite sets -------------------------------------------

// Finite: the set has finitely many members (map domains and visited sets are).
func Finite(a *Term) *Term {
	k, _ := arrParts(a.sort)
	name := "fin:" + string(k)
	t := App(name, SBool, a)
	if len(symDecl[name].axioms) == 0 {
		x := NamedBVar("a!n", a.sort)
		kk := NamedBVar("k!n", k)
		b := NamedBVar("b!n", SBool)
		Axiom(name, App(name, SBool, ConstArr(a.sort, tFalse)))
		fs := App(name, SBool, Store(x, kk, b))
		Axiom(name, Forall([]*Term{x, kk, b}, [][]*Term{{fs}}, Eq(fs, App(name, SBool, x))))
	}
	return t
}

func Card(a *Term) *Term {
	k, _ := arrParts(a.sort)
	name := "card:" + string(k)
	t := App(name, SInt, a)
	if len(symDecl[name].axioms) == 0 {
		as := a.sort
		x := NamedBVar("a!c", as)
		y := NamedBVar("b!c", as)
		kk := NamedBVar("k!c", k)
		cx := App(name, SInt, x)
		cy := App(name, SInt, y)
		fx, fy := Finite(x), Finite(y)
		// the size of an infinite set is left open: everything is guarded
		Axiom(name, Forall([]*Term{x}, [][]*Term{{cx}}, Imp(fx, Le(IntLit(0), cx))))
		Axiom(name, Eq(App(name, SInt, ConstArr(as, tFalse)), IntLit(0)))
		st := Store(x, kk, tTrue)
		cst := App(name, SInt, st)
		Axiom(name, Forall([]*Term{x, kk}, [][]*Term{{cst}}, Imp(fx, Eq(cst, Ite(Select(x, kk), cx, Add(cx, IntLit(1)))))))
		sf := Store(x, kk, tFalse)
		csf := App(name, SInt, sf)
		Axiom(name, Forall([]*Term{x, kk}, [][]*Term{{csf}}, Imp(fx, Eq(csf, Ite(Select(x, kk), Sub(cx, IntLit(1)), cx)))))
		// a member makes it positive; zero means empty
		Axiom(name, Forall([]*Term{x, kk}, [][]*Term{{cx, Select(x, kk)}}, Imp(And(fx, Select(x, kk)), Le(IntLit(1), cx))))
		// a set at least as large as another, different one has a member outside it
		w := App("cardwit:"+string(k), k, x, y)
		Axiom(name, Forall([]*Term{x, y}, [][]*Term{{cx, cy}}, Imp(And(fx, fy, Le(cy, cx), Not(Eq(x, y))), And(Select(x, w), Not(Select(y, w))))))
		// a nonempty set has a member
		w1 := App("cardmem:"+string(k), k, x)
		Axiom(name, Forall([]*Term{x}, [][]*Term{{cx}}, Imp(And(fx, Lt(IntLit(0), cx)), Select(x, w1))))
	}
	return t
}

type unsupportedErr struct{ msg string }

func (u unsupportedErr) Error() string { return "unsupported: " + u.msg }
func unsupported(msg string) error     { return unsupportedErr{msg} }

func ltOf(t types.Type, a, b *Term) *Term {
	if a.sort == SInt {
		return Lt(a, b)
	}
	name := "lt:" + string(a.sort)
	r := App(name, SBool, a, b)
	if len(symDecl[name].axioms) == 0 {
		s := a.sort
		x, y, z := NamedBVar("x!lt", s), NamedBVar("y!lt", s), NamedBVar("z!lt", s)
		l := func(p, q *Term) *Term { return App(name, SBool, p, q) }
		Axiom(name, Forall([]*Term{x}, [][]*Term{{l(x, x)}}, Not(l(x, x))))
		Axiom(name, Forall([]*Term{x, y}, [][]*Term{{l(x, y)}}, Imp(l(x, y), Not(l(y, x)))))
		Axiom(name, Forall([]*Term{x, y}, [][]*Term{{l(x, y)}}, Or(l(x, y), l(y, x), Eq(x, y))))
		Axiom(name, Forall([]*Term{x, y, z}, [][]*Term{{l(x, y), l(y, z)}}, Imp(And(l(x, y), l(y, z)), l(x, z))))
		// totality also reaches negative transitivity
		Axiom(name, Forall([]*Term{x, y, z}, [][]*Term{{l(x, y), l(x, z)}}, Imp(And(Not(l(x, y)), l(x, z)), l(y, z))))
	}
	return r
}

func shortHeap(n string) string {
	return strings.NewReplacer(" ", "").Replace(n)
}

// opaqueType: library struct types whose contents the model does not look at
func opaqueType(t types.Type) bool {
	n, ok := types.Unalias(t).(*types.Named)
	if !ok || n.Obj().Pkg() == nil {
		return false
	}
	if _, ok := n.Underlying().(*types.Struct); !ok {
		return false
	}
	switch n.Obj().Pkg().Path() {
	case "reflect", "strings", "context", "hash/crc32":
		return true
	}
	return false
}

// atomicElem is X for atomic.Pointer[X] and nil otherwise.
func atomicElem(t types.Type) types.Type {
	if n, ok := types.Unalias(t).(*types.Named); ok && n.Obj().Pkg() != nil && n.Obj().Pkg().Path() == "sync/atomic" && n.Obj().Name() == "Pointer" && n.TypeArgs() != nil && n.TypeArgs().Len() == 1 {
		return n.TypeArgs().At(0)
	}
	return nil
}
