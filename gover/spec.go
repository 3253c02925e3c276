package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------- AST

type Expr struct {
	op   string // ident, int, call, field, index, upd, un, bin, quant, ite, let, str, addr
	s    string
	args []*Expr
	vars []VarDecl
	pats [][]*Expr
	line string
}

type VarDecl struct {
	name string
	typ  *TypeExpr
}

type TypeExpr struct {
	op   string // name, ptr, slice, arr
	name string
	args []*TypeExpr
}

type Clause struct {
	kind   string
	indVar string
	hints  []*Expr
	props  []string
	label  string
	e      *Expr
	text   string
	src    string
	// ghost
	target *Expr
	vars   []VarDecl
	pats   [][]*Expr
	// loop
	slots []VarDecl
	fixed map[string]bool
	words []string
	cond  *Expr
	// r == f(params): f is defined by this function, which must therefore be
	// a function of those parameters alone
	functional bool
}

type Macro struct {
	name   string
	params []string
	body   *Expr
}

type GhostField struct {
	pkg, typ, name string
	te             *TypeExpr
}

type CallbackSpec struct {
	param    string
	mode     string // pure, trace
	mayPanic bool
	timed    bool
	assumes  []*Expr
}

// Modifies names a heap; with scoped set only the listed objects (evaluated
// in the entry state) and objects allocated by the call may change.
type Modifies struct {
	heap   string
	scoped bool
	refs   []*Expr
}

type Contract struct {
	key       string // dllist.(*Dllist).PushBack
	tparams   []string
	params    []string
	results   []string
	props     []string
	requires  []*Clause
	ensures   []*Clause
	onpanic   []*Clause
	ghost     []*Clause
	modifies  []*Modifies
	modAll    bool
	loopInv   []*Clause
	loopGhost []*Clause
	loopBound []*Clause
	callbacks map[string]*CallbackSpec
	decreases *Clause
	extern    bool
	opaque    bool // always applied by contract, never inlined
	inlineOK  bool // contract exists but callers may inline
	mayPanic  bool
	noTerm    bool // termination not claimed
	seqOnly   bool
	opts      map[string]string
	invokes   []string
	unroll    map[string]int
	useC      map[string]bool // callee contracts forced
	inl       map[string]bool // callees forced inline
	ghostVars []VarDecl
	file      string
	pkg       string
	lemmas    []*Clause
	assumes   []*Clause
	trusts    []string
	implOf    string
	bounded   string
	typeArgs  map[string]string
	stage     string
	like      string
	conc      *Conc
}

type Spec struct {
	contracts map[string]*Contract
	order     []string
	macros    map[string]*Macro
	ghosts    map[string]*GhostField // "pkg.Type.name"
	axioms    []*Clause
	props     map[string][]string
	ufuns     map[string]*UFun
	protos    map[string][]string
}

// UFun is an uninterpreted specification function.
type UFun struct {
	name   string
	tps    []string
	params []*TypeExpr
	ret    *TypeExpr
	axioms []*Clause
}

// ---------------------------------------------------------------- lexer

type tok struct {
	k string // id, int, op, str, eof
	s string
}

func lex(s string) ([]tok, error) {
	var out []tok
	rs := []rune(s)
	i := 0
	for i < len(rs) {
		c := rs[i]
		switch {
		case unicode.IsSpace(c):
			i++
		case c == '"':
			j := i + 1
			for j < len(rs) && rs[j] != '"' {
				j++
			}
			out = append(out, tok{"str", string(rs[i+1 : j])})
			i = j + 1
		case unicode.IsLetter(c) || c == '_' || c == '$' || c == '%' && i+1 < len(rs) && unicode.IsLetter(rs[i+1]):
			j := i + 1
			for j < len(rs) && (unicode.IsLetter(rs[j]) || unicode.IsDigit(rs[j]) || rs[j] == '_' || rs[j] == '\'') {
				j++
			}
			nm := rs[i:j]
			if nm[0] == '%' {
				nm = append([]rune{'$'}, nm[1:]...)
			}
			out = append(out, tok{"id", string(nm)})
			i = j
		case unicode.IsDigit(c):
			j := i + 1
			for j < len(rs) && unicode.IsDigit(rs[j]) {
				j++
			}
			out = append(out, tok{"int", string(rs[i:j])})
			i = j
		default:
			ops := []string{"<==>", "==>", "::", ":=", "==", "!=", "<=", ">=", "&&", "||"}
			m := ""
			rest := string(rs[i:min(len(rs), i+4)])
			for _, o := range ops {
				if strings.HasPrefix(rest, o) {
					m = o
					break
				}
			}
			if m == "" {
				m = string(c)
			}
			out = append(out, tok{"op", m})
			i += len([]rune(m))
		}
	}
	out = append(out, tok{"eof", ""})
	return out, nil
}

type parser struct {
	ts  []tok
	p   int
	src string
}

type perr struct{ msg string }

func (p *parser) fail(f string, a ...any) {
	panic(perr{fmt.Sprintf(f, a...) + " in: " + p.src})
}
func (p *parser) peek() tok { return p.ts[p.p] }
func (p *parser) next() tok { t := p.ts[p.p]; p.p++; return t }
func (p *parser) is(s string) bool {
	t := p.peek()
	return t.k != "str" && t.s == s && t.k != "eof"
}
func (p *parser) accept(s string) bool {
	if p.is(s) {
		p.p++
		return true
	}
	return false
}
func (p *parser) expect(s string) {
	if !p.accept(s) {
		p.fail("expected %q, got %q (token %d)", s, p.peek().s, p.p)
	}
}
func (p *parser) ident() string {
	t := p.next()
	if t.k != "id" {
		p.fail("expected identifier, got %q", t.s)
	}
	return t.s
}

func parseExpr(s string) (e *Expr, err error) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(perr); ok {
				err = fmt.Errorf("%s", pe.msg)
				return
			}
			panic(r)
		}
	}()
	ts, err := lex(s)
	if err != nil {
		return nil, err
	}
	p := &parser{ts: ts, src: s}
	e = p.expr()
	if p.peek().k != "eof" {
		p.fail("trailing %q", p.peek().s)
	}
	return e, nil
}

func (p *parser) typeExpr() *TypeExpr {
	if p.accept("*") {
		return &TypeExpr{op: "ptr", args: []*TypeExpr{p.typeExpr()}}
	}
	if p.accept("[") {
		if p.accept("]") {
			return &TypeExpr{op: "slice", args: []*TypeExpr{p.typeExpr()}}
		}
		k := p.typeExpr()
		p.expect("]")
		return &TypeExpr{op: "arr", args: []*TypeExpr{k, p.typeExpr()}}
	}
	n := p.ident()
	if n == "struct" && p.accept("{") {
		p.expect("}")
		return &TypeExpr{op: "name", name: "struct{}"}
	}
	if n == "func" && p.accept("(") {
		t := &TypeExpr{op: "func"}
		for !p.is(")") {
			t.args = append(t.args, p.typeExpr())
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
		if p.is("*") || p.is("[") || p.peek().k == "id" {
			t.args = append(t.args, p.typeExpr())
		} else {
			t.args = append(t.args, nil)
		}
		return t
	}
	if n == "map" && p.accept("[") {
		k := p.typeExpr()
		p.expect("]")
		return &TypeExpr{op: "map", args: []*TypeExpr{k, p.typeExpr()}}
	}
	if p.accept(".") {
		n += "." + p.ident()
	}
	t := &TypeExpr{op: "name", name: n}
	if p.is("[") {
		p.next()
		for {
			t.args = append(t.args, p.typeExpr())
			if !p.accept(",") {
				break
			}
		}
		p.expect("]")
	}
	return t
}

func (p *parser) varDecls(end string) []VarDecl {
	var out []VarDecl
	for {
		names := []string{p.ident()}
		for p.accept(",") {
			names = append(names, p.ident())
		}
		t := p.typeExpr()
		for _, n := range names {
			out = append(out, VarDecl{n, t})
		}
		if !p.accept(";") && !p.accept(",") {
			break
		}
	}
	return out
}

func (p *parser) patterns() [][]*Expr {
	var out [][]*Expr
	for p.accept("{") {
		var ps []*Expr
		for {
			ps = append(ps, p.expr())
			if !p.accept(",") {
				break
			}
		}
		p.expect("}")
		out = append(out, ps)
	}
	return out
}

func (p *parser) expr() *Expr {
	if p.is("forall") || p.is("exists") {
		op := p.next().s
		vs := p.varDecls("::")
		pats := p.patterns()
		p.expect("::")
		return &Expr{op: "quant", s: op, vars: vs, pats: pats, args: []*Expr{p.expr()}}
	}
	if p.is("let") {
		p.next()
		n := p.ident()
		p.expect(":=")
		v := p.iff()
		p.expect("::")
		return &Expr{op: "let", s: n, args: []*Expr{v, p.expr()}}
	}
	return p.iff()
}

func (p *parser) iff() *Expr {
	a := p.imp()
	for p.accept("<==>") {
		b := p.imp()
		a = &Expr{op: "bin", s: "<==>", args: []*Expr{a, b}}
	}
	return a
}

func (p *parser) imp() *Expr {
	a := p.ite()
	if p.accept("==>") {
		var b *Expr
		if p.is("forall") || p.is("exists") || p.is("let") {
			b = p.expr()
		} else {
			b = p.imp()
		}
		return &Expr{op: "bin", s: "==>", args: []*Expr{a, b}}
	}
	return a
}

func (p *parser) ite() *Expr {
	c := p.or()
	if p.accept("?") {
		a := p.ite()
		p.expect(":")
		b := p.ite()
		return &Expr{op: "ite", args: []*Expr{c, a, b}}
	}
	return c
}

func (p *parser) or() *Expr {
	a := p.and()
	for p.accept("||") {
		a = &Expr{op: "bin", s: "||", args: []*Expr{a, p.and()}}
	}
	return a
}
func (p *parser) and() *Expr {
	a := p.cmp()
	for p.accept("&&") {
		var b *Expr
		if p.is("forall") || p.is("exists") || p.is("let") {
			b = p.expr()
		} else {
			b = p.cmp()
		}
		a = &Expr{op: "bin", s: "&&", args: []*Expr{a, b}}
	}
	return a
}

func (p *parser) cmp() *Expr {
	a := p.add()
	var res *Expr
	for {
		op := ""
		switch {
		case p.is("=="), p.is("!="), p.is("<"), p.is("<="), p.is(">"), p.is(">="):
			op = p.next().s
		case p.is("in"):
			p.next()
			op = "in"
		case p.is("!") && p.ts[p.p+1].s == "in":
			p.next()
			p.next()
			op = "!in"
		default:
			if res != nil {
				return res
			}
			return a
		}
		b := p.add()
		e := &Expr{op: "bin", s: op, args: []*Expr{a, b}}
		if res == nil {
			res = e
		} else {
			res = &Expr{op: "bin", s: "&&", args: []*Expr{res, e}}
		}
		a = b
	}
}

func (p *parser) add() *Expr {
	a := p.mul()
	for p.is("+") || p.is("-") {
		op := p.next().s
		a = &Expr{op: "bin", s: op, args: []*Expr{a, p.mul()}}
	}
	return a
}
func (p *parser) mul() *Expr {
	a := p.unary()
	for p.is("*") || p.is("/") || p.is("%") {
		op := p.next().s
		a = &Expr{op: "bin", s: op, args: []*Expr{a, p.unary()}}
	}
	return a
}
func (p *parser) unary() *Expr {
	switch {
	case p.accept("!"):
		return &Expr{op: "un", s: "!", args: []*Expr{p.unary()}}
	case p.accept("-"):
		return &Expr{op: "un", s: "-", args: []*Expr{p.unary()}}
	case p.accept("&"):
		return &Expr{op: "addr", args: []*Expr{p.unary()}}
	case p.accept("*"):
		return &Expr{op: "un", s: "*", args: []*Expr{p.unary()}}
	}
	return p.postfix()
}
func (p *parser) postfix() *Expr {
	e := p.primary()
	for {
		switch {
		case p.accept("."):
			e = &Expr{op: "field", s: p.ident(), args: []*Expr{e}}
		case p.accept("["):
			i := p.expr()
			if p.accept(":=") {
				v := p.expr()
				p.expect("]")
				e = &Expr{op: "upd", args: []*Expr{e, i, v}}
			} else {
				p.expect("]")
				e = &Expr{op: "index", args: []*Expr{e, i}}
			}
		case p.is("(") && (e.op == "ident" || e.op == "field" && e.args[0].op == "ident"):
			p.next()
			if e.op == "field" { // a definition of another package
				e = &Expr{op: "ident", s: e.args[0].s + "." + e.s}
			}
			c := &Expr{op: "call", s: e.s}
			for !p.is(")") {
				if c.s == "zero" || c.s == "emptyset" || (c.s == "nallocs" || c.s == "allocated") && len(c.vars) == 0 || ((c.s == "istype" || c.s == "dynval" || c.s == "alloc") && len(c.args) == 1) {
					// type argument
					te := p.typeExpr()
					c.vars = append(c.vars, VarDecl{"", te})
				} else {
					c.args = append(c.args, p.expr())
				}
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			e = c
		default:
			return e
		}
	}
}
func (p *parser) primary() *Expr {
	t := p.next()
	switch t.k {
	case "id":
		return &Expr{op: "ident", s: t.s}
	case "int":
		return &Expr{op: "int", s: t.s}
	case "str":
		return &Expr{op: "str", s: t.s}
	}
	if t.s == "(" {
		e := p.expr()
		p.expect(")")
		return e
	}
	p.fail("unexpected %q", t.s)
	return nil
}

// ---------------------------------------------------------------- files

var clauseKw = map[string]bool{
	"package": true, "def": true, "ghost": true, "contract": true, "extern": true, "prop": true,
	"requires": true, "ensures": true, "modifies": true, "loop": true, "callback": true,
	"decreases": true, "onpanic": true, "end": true, "axiom": true, "theorem": true, "assume": true, "opaque": true, "option": true,
	"unroll": true, "use": true, "inline": true, "exit": true, "func": true, "trust": true, "implements": true,
	"lemma": true, "functional": true, "bounded": true, "stage": true, "like": true, "conc": true, "protocol": true, "follows": true,
}

func loadSpecs(dir string) (*Spec, error) {
	files, _ := filepath.Glob(filepath.Join(dir, "*.spec"))
	sort.Strings(files)
	sp := &Spec{contracts: map[string]*Contract{}, macros: map[string]*Macro{}, ghosts: map[string]*GhostField{}, props: map[string][]string{}, ufuns: map[string]*UFun{}, protos: map[string][]string{}}
	for _, f := range files {
		b, err := os.ReadFile(f)
		if err != nil {
			return nil, err
		}
		if err := sp.parseFile(filepath.Base(f), string(b)); err != nil {
			return nil, fmt.Errorf("%s: %v", f, err)
		}
	}
	// an option closure is held to the contract of its function type
	for _, k := range sp.order {
		c := sp.contracts[k]
		if c.like == "" {
			continue
		}
		o := sp.contracts[c.pkg+"."+c.like]
		if o == nil {
			return nil, fmt.Errorf("%s: no contract %s", k, c.like)
		}
		if strings.Join(o.params, ",") != strings.Join(c.params, ",") || strings.Join(o.results, ",") != strings.Join(c.results, ",") {
			return nil, fmt.Errorf("%s: parameters differ from %s", k, c.like)
		}
		c.requires = append(append([]*Clause{}, o.requires...), c.requires...)
		// clauses about "self" name the effect of one function value: they only
		// say that the effect is a function of the state they mention
		var oe []*Clause
		for _, e := range o.ensures {
			if !strings.Contains(e.text, "self") {
				oe = append(oe, e)
			}
		}
		c.ensures = append(oe, c.ensures...)
		c.modifies = append(append([]*Modifies{}, o.modifies...), c.modifies...)
	}
	return sp, nil
}

func (sp *Spec) parseFile(file, text string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(perr); ok {
				err = fmt.Errorf("%s", pe.msg)
				return
			}
			panic(r)
		}
	}()
	var lines []string
	for _, l := range strings.Split(text, "\n") {
		if i := strings.Index(l, "//"); i >= 0 {
			l = l[:i]
		}
		tr := strings.TrimSpace(l)
		if tr == "" {
			continue
		}
		w := strings.FieldsFunc(tr, func(r rune) bool { return r == ' ' || r == '\t' })[0]
		if clauseKw[w] {
			lines = append(lines, tr)
		} else if len(lines) > 0 {
			lines[len(lines)-1] += " " + tr
		} else {
			return fmt.Errorf("bad line %q", l)
		}
	}
	pkg := ""
	var cur []*Contract
	proto := ""
	for _, l := range lines {
		kw, rest, _ := strings.Cut(l, " ")
		rest = strings.TrimSpace(rest)
		switch kw {
		case "package":
			pkg = rest
			continue
		case "def":
			ts, _ := lex(rest)
			p := &parser{ts: ts, src: l}
			m := &Macro{name: p.ident()}
			if p.accept("(") {
				for !p.is(")") {
					m.params = append(m.params, p.ident())
					if !p.accept(",") {
						break
					}
				}
				p.expect(")")
			}
			p.expect(":=")
			m.body = p.expr()
			if p.peek().k != "eof" {
				p.fail("trailing %q", p.peek().s)
			}
			sp.macros[pkg+"."+m.name] = m
			continue
		case "func":
			ts, _ := lex(rest)
			p := &parser{ts: ts, src: l}
			u := &UFun{name: p.ident()}
			if p.accept("[") {
				for !p.is("]") {
					u.tps = append(u.tps, p.ident())
					if !p.accept(",") {
						break
					}
				}
				p.expect("]")
			}
			p.expect("(")
			for !p.is(")") {
				u.params = append(u.params, p.typeExpr())
				if !p.accept(",") {
					break
				}
			}
			p.expect(")")
			u.ret = p.typeExpr()
			sp.ufuns[pkg+"."+u.name] = u
			continue
		case "axiom", "theorem":
			// theorem f by n: ... is proved by induction on n before it is used
			c := &Clause{kind: kw, text: rest, src: pkg}
			ts, _ := lex(rest)
			p := &parser{ts: ts, src: l}
			c.label = p.ident()
			if kw == "theorem" && p.is("by") {
				p.next()
				c.indVar = p.ident()
			}
			if kw == "theorem" && p.is("hint") {
				p.next()
				for {
					c.hints = append(c.hints, p.expr())
					if !p.accept(",") {
						break
					}
				}
			}
			p.expect(":")
			c.e = p.expr()
			if u := sp.ufuns[pkg+"."+c.label]; u != nil {
				u.axioms = append(u.axioms, c)
			} else {
				p.fail("axiom for unknown function %s", c.label)
			}
			continue
		case "contract", "extern":
			c, err := parseHeader(pkg, rest)
			if err != nil {
				return err
			}
			c.extern = kw == "extern"
			c.file = file
			c.pkg = pkg
			if _, dup := sp.contracts[c.key]; dup {
				return fmt.Errorf("duplicate contract %s", c.key)
			}
			sp.contracts[c.key] = c
			sp.order = append(sp.order, c.key)
			cur = []*Contract{c}
			continue
		case "end":
			cur = nil
			continue
		}
		if kw == "ghost" && strings.HasPrefix(rest, "field ") {
			ts, _ := lex(rest[6:])
			p := &parser{ts: ts, src: l}
			g := &GhostField{pkg: pkg, typ: p.ident()}
			p.expect(".")
			g.name = p.ident()
			g.te = p.typeExpr()
			sp.ghosts[pkg+"."+g.typ+"."+g.name] = g
			continue
		}
		if kw == "protocol" {
			cur = nil
			proto = rest
			continue
		}
		if proto != "" && len(cur) == 0 {
			sp.protos[pkg+"."+proto] = append(sp.protos[pkg+"."+proto], l)
			continue
		}
		if len(cur) == 0 {
			return fmt.Errorf("clause outside contract: %s", l)
		}
		c := cur[0]
		if kw == "follows" {
			ls, ok := sp.protos[pkg+"."+rest]
			if !ok {
				return fmt.Errorf("unknown protocol %s", rest)
			}
			for _, pl := range ls {
				k, r, _ := strings.Cut(pl, " ")
				if err := c.addClause(k, strings.TrimSpace(r), pl); err != nil {
					return err
				}
			}
			continue
		}
		if err := c.addClause(kw, rest, l); err != nil {
			return err
		}
	}
	return nil
}

// header: dllist.(*Dllist[T]).PushBack(l, v) (e)
func parseHeader(pkg, s string) (*Contract, error) {
	c := &Contract{callbacks: map[string]*CallbackSpec{}, opts: map[string]string{}, unroll: map[string]int{}, useC: map[string]bool{}, inl: map[string]bool{}}
	// pull out type parameters
	var key strings.Builder
	i := 0
	for i < len(s) {
		if s[i] == '[' {
			j := strings.IndexByte(s[i:], ']') + i
			for _, n := range strings.Split(s[i+1:j], ",") {
				c.tparams = append(c.tparams, strings.TrimSpace(n))
			}
			i = j + 1
			continue
		}
		if s[i] == '(' && i > 0 && s[i-1] != '.' && !(i == 0) {
			break
		}
		key.WriteByte(s[i])
		i++
	}
	k := pkg + "." + strings.TrimSpace(key.String())
	c.key = k
	rest := strings.TrimSpace(s[i:])
	ps, rest2, err := identList(rest)
	if err != nil {
		return nil, fmt.Errorf("header %q: %v", s, err)
	}
	c.params = ps
	if strings.TrimSpace(rest2) != "" {
		rs, _, err := identList(strings.TrimSpace(rest2))
		if err != nil {
			return nil, fmt.Errorf("header %q: %v", s, err)
		}
		c.results = rs
	}
	return c, nil
}

func identList(s string) ([]string, string, error) {
	if !strings.HasPrefix(s, "(") {
		return nil, s, fmt.Errorf("expected ( in %q", s)
	}
	j := strings.IndexByte(s, ')')
	if j < 0 {
		return nil, s, fmt.Errorf("expected ) in %q", s)
	}
	var out []string
	for _, n := range strings.Split(s[1:j], ",") {
		n = strings.TrimSpace(n)
		if n != "" {
			out = append(out, n)
		}
	}
	return out, s[j+1:], nil
}

func (c *Contract) addClause(kw, rest, src string) error {
	cl := &Clause{kind: kw, text: rest, src: src}
	strip := func(s string) string {
		s = strings.TrimSpace(s)
		for strings.HasPrefix(s, "@") {
			w, r, _ := strings.Cut(s, " ")
			cl.props = append(cl.props, strings.Split(w[1:], ",")...)
			s = strings.TrimSpace(r)
		}
		return s
	}
	label := func(s string) string {
		// name:  expr   (but not ':=' or '::')
		for i := 0; i < len(s); i++ {
			ch := s[i]
			if ch == ':' {
				if i+1 < len(s) && (s[i+1] == ':' || s[i+1] == '=') {
					return s
				}
				if i == 0 {
					return s
				}
				cl.label = s[:i]
				return strings.TrimSpace(s[i+1:])
			}
			if !(ch == '_' || ch == '-' || ch >= 'a' && ch <= 'z' || ch >= 'A' && ch <= 'Z' || ch >= '0' && ch <= '9') {
				return s
			}
		}
		return s
	}
	switch kw {
	case "prop":
		c.props = strings.Fields(strings.ReplaceAll(rest, ",", " "))
	case "requires", "ensures", "onpanic", "decreases", "lemma", "assume", "functional":
		s := label(strip(rest))
		e, err := parseExpr(s)
		if err != nil {
			return err
		}
		cl.e = e
		if cl.label == "" {
			cl.label = s
		}
		switch kw {
		case "requires":
			c.requires = append(c.requires, cl)
		case "ensures":
			c.ensures = append(c.ensures, cl)
		case "functional":
			cl.functional = true
			c.ensures = append(c.ensures, cl)
		case "onpanic":
			c.onpanic = append(c.onpanic, cl)
		case "lemma":
			c.lemmas = append(c.lemmas, cl)
		case "assume":
			c.assumes = append(c.assumes, cl)
		default:
			c.decreases = cl
		}
	case "ghost", "exit":
		if err := parseGhost(cl, rest); err != nil {
			return err
		}
		c.ghost = append(c.ghost, cl)
	case "conc":
		return c.addConc(rest, src)
	case "modifies":
		for _, m := range splitTop(rest) {
			m = strings.TrimSpace(m)
			if m == "*" {
				c.modAll = true
				continue
			}
			if m == "" {
				continue
			}
			md := &Modifies{}
			if strings.HasPrefix(m, "new ") {
				md.scoped = true
				m = strings.TrimSpace(m[4:])
			}
			h, refs, ok := strings.Cut(m, "@")
			md.heap = strings.TrimSpace(h)
			if ok {
				md.scoped = true
				for _, r := range strings.Split(refs, "|") {
					e, err := parseExpr(r)
					if err != nil {
						return err
					}
					md.refs = append(md.refs, e)
				}
			}
			c.modifies = append(c.modifies, md)
		}
	case "loop":
		sub, r, _ := strings.Cut(rest, " ")
		r = strings.TrimSpace(r)
		switch sub {
		case "inv", "bound":
			r = label(strip(r))
			if err := cl.parseSlots(r); err != nil {
				return err
			}
			if sub == "inv" {
				c.loopInv = append(c.loopInv, cl)
			} else {
				c.loopBound = append(c.loopBound, cl)
			}
		case "ghost":
			r, err := cl.slotDecls(r)
			if err != nil {
				return err
			}
			if err := parseGhost(cl, r); err != nil {
				return err
			}
			c.loopGhost = append(c.loopGhost, cl)
		default:
			return fmt.Errorf("unknown loop clause %q", src)
		}
	case "callback":
		w := strings.Fields(rest)
		cb := &CallbackSpec{param: w[0], mode: w[1]}
		for _, o := range w[2:] {
			if o == "maypanic" {
				cb.mayPanic = true
			}
			if o == "timed" {
				cb.timed = true // the clock may advance during the call
			}
		}
		c.callbacks[w[0]] = cb
	case "opaque":
		c.opaque = true
	case "bounded":
		c.bounded = rest
	case "like":
		c.like = strings.TrimSpace(rest)
	case "stage":
		c.stage = rest
	case "option":
		k, v, _ := strings.Cut(rest, " ")
		c.opts[k] = strings.TrimSpace(v)
		switch k {
		case "maypanic":
			c.mayPanic = true
		case "noterm":
			c.noTerm = true
		}
	case "unroll":
		w := strings.Fields(rest)
		n := 8
		if len(w) > 1 {
			fmt.Sscan(w[1], &n)
		}
		c.unroll[w[0]] = n
	case "use":
		for _, w := range strings.Fields(strings.ReplaceAll(rest, ",", " ")) {
			c.useC[w] = true
		}
	case "inline":
		for _, w := range strings.Fields(strings.ReplaceAll(rest, ",", " ")) {
			c.inl[w] = true
		}
	case "trust":
		c.trusts = append(c.trusts, rest)
	case "implements":
		c.implOf = rest
	default:
		return fmt.Errorf("unknown clause %q", src)
	}
	return nil
}

func (cl *Clause) slotDecls(r string) (string, error) {
	// $i:int, %d:*Element :: expr
	cl.fixed = map[string]bool{}
	if strings.HasPrefix(r, "$") || strings.HasPrefix(r, "%") {
		i := strings.Index(r, "::")
		if i < 0 {
			return r, fmt.Errorf("slots without :: in %q", r)
		}
		for _, s := range splitTop(r[:i]) {
			n, t, ok := strings.Cut(s, ":")
			if !ok {
				return r, fmt.Errorf("bad slot %q", s)
			}
			n = strings.TrimSpace(n)
			ts, _ := lex(strings.TrimSpace(t))
			p := &parser{ts: ts, src: r}
			te := p.typeExpr()
			nm := "$" + n[1:]
			if n[0] == '%' {
				cl.fixed[nm] = true
			}
			cl.slots = append(cl.slots, VarDecl{nm, te})
		}
		r = strings.TrimSpace(r[i+2:])
	}
	return r, nil
}

func (cl *Clause) parseSlots(r string) error {
	r, err := cl.slotDecls(r)
	if err != nil {
		return err
	}
	e, err := parseExpr(r)
	if err != nil {
		return err
	}
	cl.e = e
	if cl.label == "" {
		cl.label = r
	}
	return nil
}

func splitTop(s string) []string {
	var out []string
	d := 0
	st := 0
	for i, c := range s {
		switch c {
		case '[', '(':
			d++
		case ']', ')':
			d--
		case ',':
			if d == 0 {
				out = append(out, strings.TrimSpace(s[st:i]))
				st = i + 1
			}
		}
	}
	return append(out, strings.TrimSpace(s[st:]))
}

// ghost l.at := [i int {pat}] expr     or    ghost l.n := expr   or  ghost if (cond) ...
func parseGhost(cl *Clause, s string) (err error) {
	defer func() {
		if r := recover(); r != nil {
			if pe, ok := r.(perr); ok {
				err = fmt.Errorf("%s", pe.msg)
				return
			}
			panic(r)
		}
	}()
	ts, err := lex(s)
	if err != nil {
		return err
	}
	p := &parser{ts: ts, src: s}
	if p.accept("if") {
		cl.cond = p.primary()
		p.expect("then")
	}
	cl.target = p.postfix()
	p.expect(":=")
	if p.is("[") {
		p.next()
		cl.vars = p.varDecls("]")
		cl.pats = p.patterns()
		p.expect("]")
	}
	cl.e = p.expr()
	if p.peek().k != "eof" {
		p.fail("trailing %q", p.peek().s)
	}
	return nil
}
