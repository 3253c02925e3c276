package main

import (
	"fmt"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- terms

type Sort string

const (
	SInt   Sort = "Int"
	SBool  Sort = "Bool"
	SRef   Sort = "Ref"
	SFn    Sort = "Fn"
	SIface Sort = "Iface"
	SStr   Sort = "Str"
	SFlt   Sort = "Flt"
)

type Term struct {
	op   string
	args []*Term
	sort Sort
	id   int
	// quantifiers
	vars []*Term
	pats [][]*Term
	kind byte // 'b' builtin app, 'f' declared function/const, 'v' bound var, 'q' quantifier, 'i' int literal
}

var (
	termTab  = map[string]*Term{}
	symDecl  = map[string]*Decl{}
	symOrder []string
)

type Decl struct {
	name   string
	args   []Sort
	ret    Sort
	axioms []*Term
}

func intern(t *Term) *Term {
	var sb strings.Builder
	sb.WriteByte(t.kind)
	sb.WriteString(t.op)
	sb.WriteByte('|')
	sb.WriteString(string(t.sort))
	for _, a := range t.args {
		sb.WriteByte(' ')
		sb.WriteString(strconv.Itoa(a.id))
	}
	for _, v := range t.vars {
		sb.WriteByte('$')
		sb.WriteString(strconv.Itoa(v.id))
	}
	for _, p := range t.pats {
		sb.WriteByte('{')
		for _, x := range p {
			sb.WriteString(strconv.Itoa(x.id))
			sb.WriteByte(',')
		}
	}
	k := sb.String()
	if o, ok := termTab[k]; ok {
		return o
	}
	t.id = len(termTab) + 1
	termTab[k] = t
	return t
}

func quoteSym(s string) string {
	for _, c := range s {
		if !(c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '_' || c == '!' || c == '.' || c == '$' || c == '@') {
			return "|" + strings.NewReplacer("|", "_", "\\", "_").Replace(s) + "|"
		}
	}
	return s
}

func builtin(op string, s Sort, args ...*Term) *Term {
	return intern(&Term{op: op, sort: s, args: args, kind: 'b'})
}

var (
	tTrue  = builtin("true", SBool)
	tFalse = builtin("false", SBool)
)

func declare(name string, ret Sort, args ...Sort) *Decl {
	if d, ok := symDecl[name]; ok {
		if d.ret != ret {
			panic(fmt.Sprintf("symbol %s redeclared: %s vs %s", name, d.ret, ret))
		}
		return d
	}
	d := &Decl{name: name, ret: ret, args: args}
	symDecl[name] = d
	symOrder = append(symOrder, name)
	return d
}

func Const(name string, s Sort) *Term {
	declare(name, s)
	return intern(&Term{op: name, sort: s, kind: 'f'})
}

var freshN = map[string]int{}

func Fresh(prefix string, s Sort) *Term {
	freshN[prefix]++
	return Const(fmt.Sprintf("%s~%d", prefix, freshN[prefix]), s)
}

func App(name string, ret Sort, args ...*Term) *Term {
	ss := make([]Sort, len(args))
	for i, a := range args {
		ss[i] = a.sort
	}
	declare(name, ret, ss...)
	return intern(&Term{op: name, sort: ret, args: args, kind: 'f'})
}

func Axiom(name string, ax *Term) {
	d := symDecl[name]
	for _, a := range d.axioms {
		if a == ax {
			return
		}
	}
	d.axioms = append(d.axioms, ax)
}

var bvN int

func BVar(name string, s Sort) *Term {
	bvN++
	return intern(&Term{op: fmt.Sprintf("%s!b%d", name, bvN), sort: s, kind: 'v'})
}

// NamedBVar gives a deterministic variable (callers ensure uniqueness in scope)
func NamedBVar(name string, s Sort) *Term {
	return intern(&Term{op: name, sort: s, kind: 'v'})
}

func IntLit(n int64) *Term {
	return intern(&Term{op: strconv.FormatInt(n, 10), sort: SInt, kind: 'i'})
}
func IntLitS(s string) *Term { return intern(&Term{op: s, sort: SInt, kind: 'i'}) }

func (t *Term) isInt() (int64, bool) {
	if t.kind == 'i' {
		n, err := strconv.ParseInt(t.op, 10, 64)
		return n, err == nil
	}
	return 0, false
}

func BoolLit(b bool) *Term {
	if b {
		return tTrue
	}
	return tFalse
}

func Not(a *Term) *Term {
	switch {
	case a == tTrue:
		return tFalse
	case a == tFalse:
		return tTrue
	case a.op == "not" && a.kind == 'b':
		return a.args[0]
	}
	return builtin("not", SBool, a)
}

func nary(op string, unit, zero *Term, ts []*Term) *Term {
	var out []*Term
	seen := map[*Term]bool{}
	for _, t := range ts {
		if t == nil || t == unit {
			continue
		}
		if t == zero {
			return zero
		}
		if t.kind == 'b' && t.op == op {
			for _, x := range t.args {
				if !seen[x] {
					seen[x] = true
					out = append(out, x)
				}
			}
			continue
		}
		if !seen[t] {
			seen[t] = true
			out = append(out, t)
		}
	}
	for _, t := range out {
		if seen[Not(t)] {
			return zero
		}
	}
	switch len(out) {
	case 0:
		return unit
	case 1:
		return out[0]
	}
	return builtin(op, SBool, out...)
}

func And(ts ...*Term) *Term { return nary("and", tTrue, tFalse, ts) }
func Or(ts ...*Term) *Term  { return nary("or", tFalse, tTrue, ts) }
func Imp(a, b *Term) *Term {
	switch {
	case a == tTrue:
		return b
	case a == tFalse || b == tTrue:
		return tTrue
	case b == tFalse:
		return Not(a)
	}
	return builtin("=>", SBool, a, b)
}
func Eq(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Eq sort mismatch: %s:%s vs %s:%s", a, a.sort, b, b.sort))
	}
	if a.kind == 'i' && b.kind == 'i' {
		return tFalse
	}
	if a.sort == SBool {
		switch {
		case a == tTrue:
			return b
		case b == tTrue:
			return a
		case a == tFalse:
			return Not(b)
		case b == tFalse:
			return Not(a)
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return builtin("=", SBool, a, b)
}
func Ite(c, a, b *Term) *Term {
	switch {
	case c == tTrue:
		return a
	case c == tFalse:
		return b
	case a == b:
		return a
	case a == tTrue && b == tFalse:
		return c
	case a == tFalse && b == tTrue:
		return Not(c)
	}
	if a.sort != b.sort {
		panic(fmt.Sprintf("Ite sort mismatch: %s vs %s", a.sort, b.sort))
	}
	if c.op == "not" && c.kind == 'b' {
		return Ite(c.args[0], b, a)
	}
	if a.sort == SBool {
		if a == tTrue {
			return Or(c, b)
		}
		if a == tFalse {
			return And(Not(c), b)
		}
		if b == tTrue {
			return Or(Not(c), a)
		}
		if b == tFalse {
			return And(c, a)
		}
	}
	return builtin("ite", a.sort, c, a, b)
}

// linear normal form helpers: keep sums as base + const where easy
func Add(a, b *Term) *Term {
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok {
			return IntLit(x + y)
		}
		a, b = b, a
	}
	if y, ok := b.isInt(); ok {
		if y == 0 {
			return a
		}
		if a.op == "+" && a.kind == 'b' && len(a.args) == 2 {
			if x, ok := a.args[1].isInt(); ok {
				return Add(a.args[0], IntLit(x+y))
			}
		}
		return builtin("+", SInt, a, b)
	}
	// float constants outwards
	if a.op == "+" && a.kind == 'b' && len(a.args) == 2 {
		if x, ok := a.args[1].isInt(); ok {
			return Add(Add(a.args[0], b), IntLit(x))
		}
	}
	if b.op == "+" && b.kind == 'b' && len(b.args) == 2 {
		if x, ok := b.args[1].isInt(); ok {
			return Add(Add(a, b.args[0]), IntLit(x))
		}
	}
	return builtin("+", SInt, a, b)
}
func Sub(a, b *Term) *Term {
	if a == b {
		return IntLit(0)
	}
	if y, ok := b.isInt(); ok {
		return Add(a, IntLit(-y))
	}
	// (x + c) - x
	if a.op == "+" && a.kind == 'b' && len(a.args) == 2 {
		if x, ok := a.args[1].isInt(); ok {
			return Add(Sub(a.args[0], b), IntLit(x))
		}
	}
	return builtin("-", SInt, a, b)
}
func Mul(a, b *Term) *Term {
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok {
			return IntLit(x * y)
		}
		if x == 1 {
			return b
		}
	}
	if y, ok := b.isInt(); ok && y == 1 {
		return a
	}
	return builtin("*", SInt, a, b)
}

// Go's truncated division
func TDiv(a, b *Term) *Term {
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok && y != 0 {
			return IntLit(x / y)
		}
	}
	d := builtin("div", SInt, a, b)
	nd := builtin("-", SInt, builtin("div", SInt, builtin("-", SInt, a), b))
	return Ite(Le(IntLit(0), a), d, nd)
}
func TMod(a, b *Term) *Term { return Sub(a, Mul(b, TDiv(a, b))) }

func Lt(a, b *Term) *Term {
	if a == b {
		return tFalse
	}
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok {
			return BoolLit(x < y)
		}
	}
	return builtin("<", SBool, a, b)
}
func Le(a, b *Term) *Term {
	if a == b {
		return tTrue
	}
	if x, ok := a.isInt(); ok {
		if y, ok := b.isInt(); ok {
			return BoolLit(x <= y)
		}
	}
	return builtin("<=", SBool, a, b)
}

func ArrSort(k, v Sort) Sort { return Sort("(Array " + string(k) + " " + string(v) + ")") }

// arrParts splits "(Array K V)"
func arrParts(s Sort) (Sort, Sort) {
	str := string(s)
	if !strings.HasPrefix(str, "(Array ") {
		panic("not an array sort: " + str)
	}
	body := str[7 : len(str)-1]
	depth, quoted := 0, false
	for i := 0; i < len(body); i++ {
		switch c := body[i]; {
		case c == '|':
			quoted = !quoted
		case quoted:
		case c == '(':
			depth++
		case c == ')':
			depth--
		case c == ' ' && depth == 0:
			return Sort(body[:i]), Sort(body[i+1:])
		}
	}
	panic("bad array sort " + str)
}

func Select(a, i *Term) *Term {
	k, v := arrParts(a.sort)
	if k != i.sort {
		panic(fmt.Sprintf("Select index sort %s vs %s (%s)[%s]", k, i.sort, a, i))
	}
	if a.op == "store" && a.kind == 'b' {
		if a.args[1] == i {
			return a.args[2]
		}
		if a.args[1].kind == 'i' && i.kind == 'i' {
			return Select(a.args[0], i)
		}
	}
	if a.kind == 'b' && strings.HasPrefix(a.op, "(as const") || a.kind == 'f' && strings.HasPrefix(a.op, "constarr:") {
		return a.args[0]
	}
	return builtin("select", v, a, i)
}
func Store(a, i, x *Term) *Term {
	k, v := arrParts(a.sort)
	if k != i.sort || v != x.sort {
		panic(fmt.Sprintf("Store sorts: %s [%s] := %s", a.sort, i.sort, x.sort))
	}
	if x.op == "select" && x.kind == 'b' && x.args[0] == a && x.args[1] == i {
		return a
	}
	if a.op == "store" && a.kind == 'b' && a.args[1] == i && a.args[2] == x {
		return a
	}
	return builtin("store", a.sort, a, i, x)
}
func ConstArr(s Sort, x *Term) *Term {
	if x != tTrue && x != tFalse && x.kind != 'i' {
		// only values are allowed under (as const ..)
		k, _ := arrParts(s)
		name := "constarr:" + string(s)
		if _, ok := symDecl[name]; !ok {
			v := NamedBVar("v!ca", x.sort)
			i := NamedBVar("i!ca", k)
			t := App(name, s, v)
			Axiom(name, Forall([]*Term{v, i}, [][]*Term{{builtin("select", x.sort, t, i)}}, Eq(builtin("select", x.sort, t, i), v)))
		}
		return App(name, s, x)
	}
	return builtin("(as const "+string(s)+")", s, x)
}

func Forall(vars []*Term, pats [][]*Term, body *Term) *Term {
	return quant("forall", vars, pats, body)
}
func Exists(vars []*Term, body *Term) *Term { return quant("exists", vars, nil, body) }

func quant(q string, vars []*Term, pats [][]*Term, body *Term) *Term {
	if len(vars) == 0 || body == tTrue || body == tFalse {
		return body
	}
	used := map[*Term]bool{}
	freeVars(body, used, map[*Term]bool{})
	any := false
	for _, v := range vars {
		if used[v] {
			any = true
		}
	}
	if !any {
		return body
	}
	// drop patterns not covering all variables
	var ps [][]*Term
	for _, p := range pats {
		m := map[*Term]bool{}
		for _, x := range p {
			freeVars(x, m, map[*Term]bool{})
		}
		ok := true
		for _, v := range vars {
			if !m[v] {
				ok = false
			}
		}
		for _, x := range p {
			if !patOK(x) {
				ok = false
			}
		}
		if ok {
			ps = append(ps, p)
		}
	}
	return intern(&Term{op: q, sort: SBool, args: []*Term{body}, vars: vars, pats: ps, kind: 'q'})
}

// patterns may not contain interpreted boolean structure
func patOK(t *Term) bool {
	if t.kind == 'q' {
		return false
	}
	if t.kind == 'b' {
		switch t.op {
		case "select", "store":
		case "+", "-":
		default:
			if t.op == "and" || t.op == "or" || t.op == "not" || t.op == "=>" || t.op == "=" || t.op == "ite" || t.op == "<" || t.op == "<=" {
				return false
			}
		}
	}
	for _, a := range t.args {
		if !patOK(a) {
			return false
		}
	}
	return t.kind != 'v' || true
}

func freeVars(t *Term, out, seen map[*Term]bool) {
	if seen[t] {
		return
	}
	seen[t] = true
	if t.kind == 'v' {
		out[t] = true
	}
	for _, a := range t.args {
		freeVars(a, out, seen)
	}
}

// Subst replaces terms (by identity)
func Subst(t *Term, m map[*Term]*Term) *Term {
	return subst(t, m, map[*Term]*Term{})
}
func subst(t *Term, m, memo map[*Term]*Term) *Term {
	if r, ok := m[t]; ok {
		return r
	}
	if r, ok := memo[t]; ok {
		return r
	}
	if len(t.args) == 0 && t.kind != 'q' {
		return t
	}
	args := make([]*Term, len(t.args))
	ch := false
	for i, a := range t.args {
		args[i] = subst(a, m, memo)
		ch = ch || args[i] != a
	}
	r := t
	if ch {
		switch {
		case t.kind == 'q':
			var pats [][]*Term
			for _, p := range t.pats {
				var q []*Term
				for _, x := range p {
					q = append(q, subst(x, m, memo))
				}
				pats = append(pats, q)
			}
			r = quant(t.op, t.vars, pats, args[0])
		case t.kind == 'b':
			r = rebuild(t, args)
		default:
			r = intern(&Term{op: t.op, sort: t.sort, args: args, kind: t.kind})
		}
	}
	memo[t] = r
	return r
}

func rebuild(t *Term, args []*Term) *Term {
	switch t.op {
	case "and":
		return And(args...)
	case "or":
		return Or(args...)
	case "not":
		return Not(args[0])
	case "=>":
		return Imp(args[0], args[1])
	case "=":
		return Eq(args[0], args[1])
	case "ite":
		return Ite(args[0], args[1], args[2])
	case "+":
		if len(args) == 2 {
			return Add(args[0], args[1])
		}
	case "-":
		if len(args) == 2 {
			return Sub(args[0], args[1])
		}
	case "<":
		return Lt(args[0], args[1])
	case "<=":
		return Le(args[0], args[1])
	case "select":
		return Select(args[0], args[1])
	}
	return builtin(t.op, t.sort, args...)
}

func (t *Term) String() string {
	var sb strings.Builder
	t.write(&sb)
	return sb.String()
}

func (t *Term) write(sb *strings.Builder) {
	switch t.kind {
	case 'i':
		if strings.HasPrefix(t.op, "-") {
			sb.WriteString("(- " + t.op[1:] + ")")
		} else {
			sb.WriteString(t.op)
		}
		return
	case 'v':
		sb.WriteString(quoteSym(t.op))
		return
	case 'q':
		sb.WriteString("(" + t.op + " (")
		for i, v := range t.vars {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString("(" + quoteSym(v.op) + " " + string(v.sort) + ")")
		}
		sb.WriteString(") ")
		if len(t.pats) > 0 {
			sb.WriteString("(! ")
		}
		t.args[0].write(sb)
		if len(t.pats) > 0 {
			for _, p := range t.pats {
				sb.WriteString(" :pattern (")
				for i, x := range p {
					if i > 0 {
						sb.WriteByte(' ')
					}
					x.write(sb)
				}
				sb.WriteString(")")
			}
			sb.WriteString(")")
		}
		sb.WriteString(")")
		return
	}
	op := t.op
	if t.kind == 'f' {
		op = quoteSym(op)
	}
	if len(t.args) == 0 {
		sb.WriteString(op)
		return
	}
	sb.WriteByte('(')
	sb.WriteString(op)
	for _, a := range t.args {
		sb.WriteByte(' ')
		a.write(sb)
	}
	sb.WriteByte(')')
}

// ---------------------------------------------------------------- datatypes & sorts registry

type DT struct {
	name   Sort
	ctor   string
	fields []string // selector names
	sorts  []Sort
}

var (
	dtypes    = map[Sort]*DT{}
	dtOrder   []Sort
	userSorts = map[Sort]bool{}
)

func DeclareDT(name Sort, ctor string, fields []string, sorts []Sort) *DT {
	if d, ok := dtypes[name]; ok {
		return d
	}
	d := &DT{name, ctor, fields, sorts}
	dtypes[name] = d
	dtOrder = append(dtOrder, name)
	return d
}

func Mk(d *DT, args ...*Term) *Term {
	return builtin(d.ctor, d.name, args...)
}
func Sel(d *DT, i int, x *Term) *Term {
	if x.kind == 'b' && x.op == d.ctor {
		return x.args[i]
	}
	if x.kind == 'b' && x.op == "ite" {
		return Ite(x.args[0], Sel(d, i, x.args[1]), Sel(d, i, x.args[2]))
	}
	return builtin(d.fields[i], d.sorts[i], x)
}

// ---------------------------------------------------------------- printing a query

func sortAtoms(s Sort, out map[Sort]bool) {
	str := string(s)
	if strings.HasPrefix(str, "(Array ") {
		k, v := arrParts(s)
		sortAtoms(k, out)
		sortAtoms(v, out)
		return
	}
	if out[s] {
		return
	}
	out[s] = true
	if d, ok := dtypes[s]; ok {
		for _, f := range d.sorts {
			sortAtoms(f, out)
		}
	}
}

// splitForQuery turns a term into parts to assert (flatten conjunctions)
func Query(assumps []*Term, goal *Term, theorem int) string {
	all := append([]*Term{}, assumps...)
	if goal != nil {
		all = append(all, Not(goal))
	}
	seen := map[*Term]bool{}
	syms := map[string]bool{}
	sorts := map[Sort]bool{}
	var queue []*Term
	var visit func(t *Term)
	visit = func(t *Term) {
		if seen[t] {
			return
		}
		seen[t] = true
		sortAtoms(t.sort, sorts)
		for _, v := range t.vars {
			sortAtoms(v.sort, sorts)
		}
		if t.kind == 'f' && !syms[t.op] {
			syms[t.op] = true
			d := symDecl[t.op]
			for _, s := range d.args {
				sortAtoms(s, sorts)
			}
			for _, a := range d.axioms {
				if no, ok := theoremNo[a]; ok && theorem > 0 && no >= theorem-1 {
					continue
				}
				queue = append(queue, a)
			}
		}
		for _, a := range t.args {
			visit(a)
		}
		for _, p := range t.pats {
			for _, a := range p {
				visit(a)
			}
		}
	}
	for _, t := range all {
		visit(t)
	}
	var axioms []*Term
	done := map[*Term]bool{}
	for len(queue) > 0 {
		a := queue[0]
		queue = queue[1:]
		if done[a] {
			continue
		}
		done[a] = true
		axioms = append(axioms, a)
		visit(a)
	}
	var sb strings.Builder
	var us []string
	for s := range sorts {
		if userSorts[s] {
			us = append(us, string(s))
		}
	}
	sort.Strings(us)
	for _, s := range us {
		fmt.Fprintf(&sb, "(declare-sort %s 0)\n", s)
	}
	for _, s := range dtOrder {
		if !sorts[s] {
			continue
		}
		d := dtypes[s]
		fmt.Fprintf(&sb, "(declare-datatypes ((%s 0)) (((%s", s, d.ctor)
		for i, f := range d.fields {
			fmt.Fprintf(&sb, " (%s %s)", f, d.sorts[i])
		}
		sb.WriteString("))))\n")
	}
	for _, n := range symOrder {
		if !syms[n] {
			continue
		}
		d := symDecl[n]
		fmt.Fprintf(&sb, "(declare-fun %s (", quoteSym(n))
		for i, a := range d.args {
			if i > 0 {
				sb.WriteByte(' ')
			}
			sb.WriteString(string(a))
		}
		fmt.Fprintf(&sb, ") %s)\n", d.ret)
	}
	emit := func(t *Term) {
		sb.WriteString("(assert ")
		t.write(&sb)
		sb.WriteString(")\n")
	}
	for _, a := range axioms {
		emit(a)
	}
	for _, b := range allocBases {
		if !syms[b.op] {
			continue
		}
		for _, n := range symOrder {
			if syms[n] && strings.HasPrefix(n, "sub:") {
				v := NamedBVar("x!ab", SRef)
				sx := App(n, SRef, v)
				emit(Forall([]*Term{v}, [][]*Term{{sx}}, Eq(Select(b, sx), Select(b, v))))
			}
		}
	}
	for _, t := range all {
		if t.kind == 'b' && t.op == "and" {
			for _, x := range t.args {
				emit(x)
			}
		} else {
			emit(t)
		}
	}
	sb.WriteString("(check-sat)\n")
	return sb.String()
}

var allocBases []*Term

// ---------------------------------------------------------------- absolute indices

// linear form: sum of coef*term + const
func linear(t *Term, c int64, out map[*Term]int64, k *int64) bool {
	if n, ok := t.isInt(); ok {
		*k += c * n
		return true
	}
	if t.kind == 'b' {
		switch {
		case t.op == "+":
			for _, a := range t.args {
				if !linear(a, c, out, k) {
					return false
				}
			}
			return true
		case t.op == "-" && len(t.args) == 2:
			return linear(t.args[0], c, out, k) && linear(t.args[1], -c, out, k)
		case t.op == "-" && len(t.args) == 1:
			return linear(t.args[0], -c, out, k)
		}
	}
	out[t] += c
	return true
}

func linBuild(m map[*Term]int64, k int64) *Term {
	var ts []*Term
	for t, c := range m {
		if c != 0 {
			ts = append(ts, t)
		}
	}
	sort.Slice(ts, func(i, j int) bool { return ts[i].id < ts[j].id })
	var r *Term
	for _, t := range ts {
		if c := m[t]; c > 0 {
			for i := int64(0); i < c; i++ {
				if r == nil {
					r = t
				} else {
					r = Add(r, t)
				}
			}
		}
	}
	if r == nil {
		r = IntLit(0)
	}
	for _, t := range ts {
		for i := m[t]; i < 0; i++ {
			r = Sub(r, t)
		}
	}
	return Add(r, IntLit(k))
}

func linNorm(t *Term) *Term {
	m := map[*Term]int64{}
	var k int64
	linear(t, 1, m, &k)
	for _, c := range m {
		if c > 8 || c < -8 {
			return t
		}
	}
	return linBuild(m, k)
}

// normIdx renormalises the sums under t that mention x
func normIdx(t, x *Term, memo map[*Term]*Term) *Term {
	if r, ok := memo[t]; ok {
		return r
	}
	r := t
	if len(t.args) > 0 {
		args := make([]*Term, len(t.args))
		ch := false
		for i, a := range t.args {
			args[i] = normIdx(a, x, memo)
			ch = ch || args[i] != a
		}
		var pats [][]*Term
		for _, p := range t.pats {
			var q []*Term
			for _, y := range p {
				z := normIdx(y, x, memo)
				ch = ch || z != y
				q = append(q, z)
			}
			pats = append(pats, q)
		}
		if ch {
			switch {
			case t.kind == 'q':
				r = quant(t.op, t.vars, pats, args[0])
			case t.kind == 'b':
				r = rebuild(t, args)
			default:
				r = intern(&Term{op: t.op, sort: t.sort, args: args, kind: t.kind})
			}
		}
		if r.kind == 'b' && (r.op == "+" || r.op == "-") {
			fv := map[*Term]bool{}
			freeVars(r, fv, map[*Term]bool{})
			if fv[x] {
				r = linNorm(r)
			}
		}
	}
	memo[t] = r
	return r
}

// absForall builds a universal quantifier.  A pattern row[off+v] rarely
// matches syntactically, so the formula is restated over the absolute index
// x = off+v with the pattern row[x]; the restatement is equivalent (v = x-off).
func absForall(vars []*Term, pats [][]*Term, body *Term) *Term {
	isVar := map[*Term]bool{}
	for _, v := range vars {
		isVar[v] = true
	}
	mentions := func(t *Term) []*Term {
		fv := map[*Term]bool{}
		freeVars(t, fv, map[*Term]bool{})
		var out []*Term
		for _, v := range vars {
			if fv[v] {
				out = append(out, v)
			}
		}
		return out
	}
	var keep [][]*Term
	var out []*Term
	for _, p := range pats {
		sub := map[*Term]*Term{}
		nv := map[*Term]*Term{}
		var xs []*Term
		for _, t := range p {
			if t.kind != 'b' || t.op != "select" || len(mentions(t.args[0])) > 0 {
				continue
			}
			idx := t.args[1]
			if idx.sort != SInt || isVar[idx] {
				continue
			}
			m := map[*Term]int64{}
			var k int64
			linear(idx, 1, m, &k)
			var v *Term
			ok := true
			for a := range m {
				if isVar[a] {
					ok = ok && v == nil && m[a] == 1
					v = a
				} else if len(mentions(a)) > 0 {
					ok = false
				}
			}
			if !ok || v == nil || nv[v] != nil {
				continue
			}
			rest := map[*Term]int64{}
			for a, c := range m {
				if a != v {
					rest[a] = -c
				}
			}
			x := NamedBVar(v.op+"x", SInt)
			rest[x] = 1
			nv[v] = x
			xs = append(xs, x)
			sub[v] = linBuild(rest, -k)
			sub[idx] = x
		}
		if len(xs) == 0 {
			keep = append(keep, p)
			continue
		}
		norm := func(t *Term) *Term {
			t = Subst(t, sub)
			for _, x := range xs {
				t = normIdx(t, x, map[*Term]*Term{})
			}
			return t
		}
		var vs []*Term
		for _, v := range vars {
			if nv[v] != nil {
				vs = append(vs, nv[v])
			} else {
				vs = append(vs, v)
			}
		}
		var np []*Term
		for _, t := range p {
			np = append(np, norm(t))
		}
		out = append(out, Forall(vs, [][]*Term{np}, norm(body)))
	}
	if len(out) == 0 {
		return Forall(vars, pats, body)
	}
	if len(keep) > 0 {
		out = append(out, Forall(vars, keep, body))
	}
	return And(out...)
}
