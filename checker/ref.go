package main

import (
	"fmt"
	"path/filepath"
	"strings"
)

// ---------------------------------------------------------------- reference front-end
// An independent parser, name resolver and type checker for the language described in README.md,
// following Go where the syntax is shared.

type RType struct {
	Name  string // int, bool, string
	Slice bool
}

func (t RType) String() string {
	if t.Slice {
		return "[]" + t.Name
	}
	return t.Name
}

type RVar struct {
	Name   string
	T      RType
	Global bool
	Mod    string
	id     int
}

type RFunc struct {
	Name   string
	Params []*RVar
	Ret    []RType
	Body   []RStmt
	Mod    string
}

type RExpr interface{}
type RStmt interface{}

type (
	ELit struct {
		T   RType
		V   string
		Nil bool
	}
	EVar struct{ V *RVar }
	EBin struct {
		Op   string
		L, R RExpr
		T    RType
	}
	ENot  struct{ X RExpr }
	ECall struct {
		F    *RFunc
		Args []RExpr
	}
	EIdx struct {
		X, I RExpr
		T    RType
	}
	ESub   struct{ X, Lo, Hi RExpr }
	ESlice struct {
		El   string
		Vals []RExpr
	}
	EBuiltin struct {
		Name string
		Args []RExpr
		T    []RType
	}
	EApp   struct{ Cmds []AppCmd }
	AppCmd struct {
		Name string
		Args []RExpr
	}

	SDef struct {
		Vars []*RVar
		Vals []RExpr
	} // definition or assignment
	SSliceSet struct {
		V    *RVar
		I, X RExpr
	}
	SExpr struct{ X RExpr }
	SIf   struct {
		Init   RStmt
		Conds  []RExpr
		Bodies [][]RStmt
		Else   []RStmt
		Switch bool
	}
	SFor struct {
		Init RStmt
		Cond RExpr
		Post RStmt
		Body []RStmt
	}
	SRange struct {
		I, V *RVar
		X    RExpr
		Str  bool
		Body []RStmt
	}
	SBreak  struct{ Switch bool }
	SCont   struct{}
	SReturn struct{ Vals []RExpr }
	SFunc   struct{ F *RFunc }
	SImport struct{ M *RModule }
)

type RModule struct {
	Path  string
	Body  []RStmt
	Funcs map[string]*RFunc
	done  bool
}

type RefErr struct {
	msg    string
	syntax bool // not the language's grammar: whether it is rejected is not decided by the type and scope rules
}

type rscope struct {
	up   *rscope
	vars map[string]*RVar
	fn   bool
	top  bool
}

type rparser struct {
	toks  []Tok
	i     int
	sc    *rscope
	mod   *RModule
	fn    *RFunc
	loop  int
	sw    int // enclosing switches inside the innermost loop
	imps  map[string]*RModule
	proj  *Prepared
	mods  map[string]*RModule
	stack []string
	nvar  *int

	neutral *string
}

var tInt_ = RType{Name: "int"}
var tBool_ = RType{Name: "bool"}
var tStr_ = RType{Name: "string"}

func (p *rparser) fail(f string, a ...any) {
	t := p.peek()
	panic(RefErr{fmt.Sprintf("%s at row %d col %d", fmt.Sprintf(f, a...), t.Row, t.Col), false})
}

// syn: the text is outside of the grammar.
func (p *rparser) syn(f string, a ...any) {
	t := p.peek()
	panic(RefErr{fmt.Sprintf("%s at row %d col %d", fmt.Sprintf(f, a...), t.Row, t.Col), true})
}

// open notes that the property's rules do not say whether the program is accepted.
func (p *rparser) open(f string, a ...any) {
	if *p.neutral == "" {
		*p.neutral = fmt.Sprintf(f, a...)
	}
}
func (p *rparser) peek() Tok { return p.at(0) }
func (p *rparser) at(k int) Tok {
	if p.i+k < len(p.toks) {
		return p.toks[p.i+k]
	}
	return p.toks[len(p.toks)-1]
}
func (p *rparser) next() Tok { t := p.peek(); p.i++; return t }
func (p *rparser) is(v string) bool {
	t := p.peek()
	return (t.Kind == tOp || t.Kind == tKeyword) && t.V == v
}
func (p *rparser) isAt(k int, v string) bool {
	t := p.at(k)
	return (t.Kind == tOp || t.Kind == tKeyword) && t.V == v
}
func (p *rparser) accept(v string) bool {
	if p.is(v) {
		p.i++
		return true
	}
	return false
}
func (p *rparser) expect(v string) {
	if !p.accept(v) {
		p.syn("expected %q", v)
	}
}
func (p *rparser) nl() {
	for p.peek().Kind == tNewline {
		p.i++
	}
}
func (p *rparser) ident() string {
	t := p.next()
	if t.Kind != tIdent {
		p.i--
		p.syn("expected identifier")
	}
	return t.V
}

// refCheck parses and checks a project. err is non-nil iff the program must be rejected.
func refCheck(pr *Prepared) (m *RModule, err error) {
	defer func() {
		if e := recover(); e != nil {
			if r, ok := e.(RefErr); ok {
				err = fmt.Errorf("%s", r.msg)
				return
			}
			panic(e)
		}
	}()
	n := 0
	ne := ""
	mods := map[string]*RModule{}
	m = refModule(pr, pr.P.Main, mods, nil, &n, &ne)
	return m, nil
}

// refJudge: "accept", "reject", or "open" where the type and scope rules leave the outcome undecided.
func refJudge(pr *Prepared) (verdict, why string) {
	n := 0
	ne := ""
	defer func() {
		if e := recover(); e != nil {
			r, ok := e.(RefErr)
			if !ok {
				panic(e)
			}
			verdict, why = "reject", r.msg
			if r.syntax {
				verdict = "open"
			}
		}
	}()
	refModule(pr, pr.P.Main, map[string]*RModule{}, nil, &n, &ne)
	if ne != "" {
		return "open", ne
	}
	return "accept", ""
}

func refModule(pr *Prepared, path string, mods map[string]*RModule, stack []string, nvar *int, neutral *string) *RModule {
	for _, s := range stack {
		if s == path {
			panic(RefErr{"import cycle", false})
		}
	}
	if m, ok := mods[path]; ok {
		return m
	}
	toks, ok := pr.Toks[path]
	if !ok {
		panic(RefErr{"missing file " + path, false})
	}
	if e := pr.LexErr[path]; e != nil {
		panic(RefErr{e.Error(), true})
	}
	m := &RModule{Path: path, Funcs: map[string]*RFunc{}}
	p := &rparser{toks: toks, mod: m, imps: map[string]*RModule{}, proj: pr, mods: mods, stack: append(append([]string{}, stack...), path), nvar: nvar, neutral: neutral}
	p.sc = &rscope{vars: map[string]*RVar{}, top: true}
	p.program()
	mods[path] = m
	return m
}

func (p *rparser) program() {
	p.nl()
	if p.is("import") {
		p.imports()
	}
	p.mod.Body = append(p.mod.Body, p.stmts(func() bool { return p.peek().Kind == tEOF })...)
	if p.peek().Kind != tEOF {
		p.syn("unexpected token %q", p.peek().V)
	}
}

func (p *rparser) imports() {
	for p.is("import") {
		p.next()
		one := func() {
			alias := ""
			if p.peek().Kind == tIdent {
				alias = p.next().V
			}
			t := p.next()
			if t.Kind != tString {
				p.i--
				p.syn("expected import path")
			}
			path := t.V
			if !filepath.IsAbs(path) {
				path = filepath.Join(filepath.Dir(p.mod.Path), path)
			}
			path = filepath.Clean(path)
			if _, ok := p.proj.Toks[path]; !ok {
				name := strings.TrimSuffix(t.V, filepath.Ext(t.V))
				path = "/opt/tsh/std/" + name + ".tsh"
				if _, ok := p.proj.Toks[path]; !ok {
					p.fail("import %s not found", t.V)
				}
				if alias == "" {
					alias = "K_" + filepath.Base(name) // the name is spelled out
				}
			}
			if alias == "" {
				p.syn("import without alias")
			}
			if _, dup := p.imps[alias]; dup {
				p.fail("alias %s defined twice", alias)
			}
			m := refModule(p.proj, path, p.mods, p.stack, p.nvar, p.neutral)
			p.imps[alias] = m
			p.mod.Body = append(p.mod.Body, SImport{m})
			if p.peek().Kind != tNewline && p.peek().Kind != tEOF {
				p.syn("expected newline")
			}
			p.nl()
		}
		if p.accept("(") {
			p.nl()
			for !p.accept(")") {
				one()
			}
			if p.peek().Kind != tNewline && p.peek().Kind != tEOF {
				p.syn("expected newline")
			}
			p.nl()
		} else {
			one()
		}
	}
}

func (p *rparser) stmts(end func() bool) []RStmt {
	var r []RStmt
	p.nl()
	for !end() {
		r = append(r, p.stmt()...)
		if p.peek().Kind == tNewline {
			p.nl()
			continue
		}
		if end() && p.peek().Kind == tEOF {
			break
		}
		p.syn("expected newline")
	}
	return r
}

func (p *rparser) block() []RStmt {
	p.expect("{")
	if p.peek().Kind != tNewline {
		p.syn("expected newline")
	}
	p.push(false)
	r := p.stmts(func() bool { return p.is("}") || p.peek().Kind == tEOF })
	p.pop()
	p.expect("}")
	return r
}

func (p *rparser) push(fn bool) { p.sc = &rscope{up: p.sc, vars: map[string]*RVar{}, fn: fn} }
func (p *rparser) pop()         { p.sc = p.sc.up }

func (p *rparser) lookup(n string) *RVar {
	for s := p.sc; s != nil; s = s.up {
		if v, ok := s.vars[n]; ok {
			return v
		}
	}
	return nil
}

func (p *rparser) define(n string, t RType) *RVar {
	if p.lookup(n) != nil {
		p.fail("variable %s already defined", n)
	}
	*p.nvar++
	v := &RVar{Name: n, T: t, Global: p.fn == nil, Mod: p.mod.Path, id: *p.nvar}
	p.sc.vars[n] = v
	return v
}

func (p *rparser) typ() RType {
	sl := false
	if p.is("[") {
		p.next()
		p.expect("]")
		sl = true
	}
	t := p.next()
	if t.Kind != tKeyword {
		p.i--
		p.syn("expected type")
	}
	switch t.V {
	case "int", "bool", "string":
		return RType{t.V, sl}
	case "error":
		return RType{"string", sl}
	}
	p.i--
	p.syn("expected type")
	return RType{}
}

func (p *rparser) isType() bool {
	if p.is("[") {
		return true
	}
	t := p.peek()
	return t.Kind == tKeyword && (t.V == "int" || t.V == "bool" || t.V == "string" || t.V == "error")
}

func (p *rparser) stmt() []RStmt {
	t := p.peek()
	switch {
	case t.Kind == tKeyword:
		switch t.V {
		case "func":
			return []RStmt{p.funcDef()}
		case "return":
			return []RStmt{p.ret()}
		case "if":
			return []RStmt{p.ifStmt()}
		case "switch":
			return []RStmt{p.switchStmt()}
		case "for":
			return []RStmt{p.forStmt()}
		case "break", "continue":
			p.next()
			if t.V == "break" && p.sw > 0 {
				if p.loop == 0 {
					p.open("break of a switch outside of a loop")
				}
				return []RStmt{SBreak{Switch: true}}
			}
			if p.loop == 0 {
				p.fail("%s outside loop", t.V)
			}
			if t.V == "break" {
				return []RStmt{SBreak{}}
			}
			return []RStmt{SCont{}}
		case "import":
			p.syn("import after statements")
		}
	}
	return []RStmt{p.simple()}
}

// simple statements: definitions, assignments, calls.
func (p *rparser) simple() RStmt {
	if p.is("var") {
		return p.varDef()
	}
	if p.peek().Kind == tIdent {
		// look ahead: ident {, ident} (:= | = | op= | ++ | --)
		k := 1
		for p.isAt(k, ",") && p.at(k+1).Kind == tIdent {
			k += 2
		}
		op := p.at(k)
		if op.Kind == tOp {
			switch op.V {
			case ":=":
				var names []string
				for {
					names = append(names, p.ident())
					if !p.accept(",") {
						break
					}
				}
				p.next()
				return p.shortDef(names)
			case "=":
				return p.assign()
			case "+=", "-=", "*=", "/=", "%=":
				if k == 1 {
					return p.compound()
				}
			case "++", "--":
				if k == 1 {
					v := p.useVar()
					p.next()
					if v.T != tInt_ {
						p.fail("%s on %s", op.V, v.T)
					}
					return SDef{[]*RVar{v}, []RExpr{EBin{op.V[:1], EVar{v}, ELit{T: tInt_, V: "1"}, tInt_}}}
				}
			}
		}
		if p.isAt(1, "[") {
			// slice assignment?
			save := p.i
			v := p.lookup(p.peek().V)
			if v != nil && v.T.Slice {
				p.next()
				p.next()
				idx := p.expr1(tInt_, "index")
				if p.accept("]") && p.is("=") {
					p.next()
					x := p.expr1(RType{v.T.Name, false}, "slice element")
					return SSliceSet{v, idx, x}
				}
			}
			p.i = save
		}
	}
	// expression statement
	t := p.peek()
	x, _ := p.exprMulti()
	switch x.(type) {
	case ECall, EBuiltin, EApp:
		return SExpr{x}
	}
	p.syn("expression %q is not a statement", t.V)
	return nil
}

func (p *rparser) useVar() *RVar {
	n := p.ident()
	v := p.lookup(n)
	if v == nil {
		p.fail("undefined variable %s", n)
	}
	return v
}

// rhs parses the right-hand side list and returns expressions with types (multi-value calls expanded).
func (p *rparser) rhs() ([]RExpr, []RType, bool) {
	var xs []RExpr
	var ts []RType
	multi := false
	n := 0
	for {
		x, tt := p.exprMulti()
		xs = append(xs, x)
		n++
		if len(tt) == 0 {
			p.fail("void value used")
		}
		if len(tt) != 1 {
			multi = true
		}
		ts = append(ts, tt...)
		if !p.accept(",") {
			break
		}
	}
	if multi && n > 1 {
		p.fail("multi-value in a list")
	}
	return xs, ts, multi
}

func (p *rparser) varDef() RStmt {
	p.next()
	var names []string
	for {
		names = append(names, p.ident())
		if !p.accept(",") {
			break
		}
	}
	dup := map[string]bool{}
	for _, n := range names {
		if dup[n] || p.lookup(n) != nil {
			p.fail("variable %s already defined", n)
		}
		dup[n] = true
	}
	var t RType
	hasT := false
	if p.isType() {
		t = p.typ()
		hasT = true
	}
	if p.accept("=") {
		xs, ts, _ := p.rhs()
		if len(ts) != len(names) {
			p.fail("assignment count mismatch")
		}
		var vs []*RVar
		for i, n := range names {
			if hasT && ts[i] != t {
				p.fail("cannot use %s as %s", ts[i], t)
			}
			vs = append(vs, p.define(n, ts[i]))
		}
		return SDef{vs, xs}
	}
	if !hasT {
		p.syn("variable without type")
	}
	var vs []*RVar
	var xs []RExpr
	for _, n := range names {
		vs = append(vs, p.define(n, t))
		xs = append(xs, zeroExpr(t))
	}
	return SDef{vs, xs}
}

func zeroExpr(t RType) RExpr {
	if t.Slice {
		return ESlice{El: t.Name}
	}
	switch t.Name {
	case "int":
		return ELit{T: t, V: "0"}
	case "bool":
		return ELit{T: t, V: "false"}
	}
	return ELit{T: t}
}

func (p *rparser) shortDef(names []string) RStmt {
	xs, ts, _ := p.rhs()
	if len(ts) != len(names) {
		p.fail("assignment count mismatch")
	}
	anyNew := false
	dup := map[string]bool{}
	for i, n := range names {
		if dup[n] {
			p.fail("%s repeated", n)
		}
		dup[n] = true
		v := p.lookup(n)
		if v == nil {
			anyNew = true
		} else {
			if p.sc.vars[n] == nil && !(p.sc.up != nil && p.sc.up.fn && p.sc.up.vars[n] != nil) {
				p.open("short definition of a variable of an outer scope")
			}
			if v.T != ts[i] {
				p.fail("cannot use %s as %s", ts[i], v.T)
			}
		}
	}
	if !anyNew {
		p.fail("no new variables")
	}
	var vs []*RVar
	for i, n := range names {
		v := p.lookup(n)
		if v == nil {
			v = p.define(n, ts[i])
		}
		vs = append(vs, v)
	}
	return SDef{vs, xs}
}

func (p *rparser) assign() RStmt {
	var vs []*RVar
	for {
		vs = append(vs, p.useVar())
		if !p.accept(",") {
			break
		}
	}
	p.expect("=")
	xs, ts, _ := p.rhs()
	if len(ts) != len(vs) {
		p.fail("assignment count mismatch")
	}
	for i, v := range vs {
		if v.T != ts[i] {
			p.fail("cannot use %s as %s", ts[i], v.T)
		}
	}
	return SDef{vs, xs}
}

func (p *rparser) compound() RStmt {
	v := p.useVar()
	op := p.next().V[:1]
	x, t := p.single()
	r := p.binType(op, v.T, t)
	return SDef{[]*RVar{v}, []RExpr{EBin{op, EVar{v}, x, r}}}
}

func (p *rparser) binType(op string, l, r RType) RType {
	if l != r || l.Slice {
		p.fail("operator %s on %s and %s", op, l, r)
	}
	switch {
	case l.Name == "int":
	case l.Name == "string" && op == "+":
	default:
		p.fail("operator %s not defined on %s", op, l)
	}
	return l
}

func (p *rparser) funcDef() RStmt {
	p.next()
	if p.fn != nil || p.sc.up != nil {
		p.fail("function definition below top level")
	}
	name := p.ident()
	if p.mod.Funcs[name] != nil {
		p.fail("function %s already defined", name)
	}
	f := &RFunc{Name: name, Mod: p.mod.Path}
	p.fn = f
	p.push(true)
	saveLoop := p.loop
	p.loop = 0
	p.expect("(")
	for !p.is(")") {
		n := p.ident()
		t := p.typ()
		if _, dup := p.sc.vars[n]; dup {
			p.fail("duplicate parameter %s", n)
		}
		// parameters may carry the name of a global
		*p.nvar++
		v := &RVar{Name: n, T: t, Mod: p.mod.Path, id: *p.nvar}
		if p.lookup(n) != nil {
			p.fail("variable %s already defined", n)
		}
		p.sc.vars[n] = v
		f.Params = append(f.Params, v)
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	if p.accept("(") {
		for {
			f.Ret = append(f.Ret, p.typ())
			if !p.accept(",") {
				break
			}
		}
		p.expect(")")
	} else if p.isType() {
		f.Ret = append(f.Ret, p.typ())
	}
	f.Body = p.block()
	if len(f.Ret) > 0 {
		if !terminates(f.Body) {
			p.fail("missing return in %s", name)
		}
		if _, ok := f.Body[len(f.Body)-1].(SReturn); !ok {
			p.open("function %s terminates without a final return", name)
		}
	}
	p.pop()
	p.fn = nil
	p.loop = saveLoop
	p.mod.Funcs[name] = f
	return SFunc{f}
}

// terminates: Go's terminating statement analysis.
func terminates(b []RStmt) bool {
	if len(b) == 0 {
		return false
	}
	switch s := b[len(b)-1].(type) {
	case SReturn:
		return true
	case SIf:
		if s.Else == nil {
			return false
		}
		for _, x := range s.Bodies {
			if !terminates(x) {
				return false
			}
		}
		return terminates(s.Else)
	case SFor:
		return s.Cond == nil && !hasBreak(s.Body)
	case SExpr:
		if c, ok := s.X.(EBuiltin); ok && c.Name == "panic" {
			return true
		}
	}
	return false
}

func hasBreak(b []RStmt) bool {
	for _, s := range b {
		switch s := s.(type) {
		case SBreak:
			return !s.Switch
		case SIf:
			for _, x := range s.Bodies {
				if hasBreak(x) {
					return true
				}
			}
			if hasBreak(s.Else) {
				return true
			}
		}
	}
	return false
}

func (p *rparser) ret() RStmt {
	p.next()
	if p.fn == nil {
		p.fail("return outside function")
	}
	if p.peek().Kind == tNewline || p.peek().Kind == tEOF || p.is("}") {
		if len(p.fn.Ret) != 0 {
			p.fail("missing return values")
		}
		p.open("return without value")
		return SReturn{}
	}
	xs, ts, _ := p.rhs()
	if len(ts) != len(p.fn.Ret) {
		p.fail("wrong number of return values")
	}
	for i := range ts {
		if l, ok := xs[min(i, len(xs)-1)].(ELit); ok && l.Nil && p.fn.Ret[i].Slice {
			p.open("nil as a slice")
			xs[i] = ESlice{El: p.fn.Ret[i].Name}
			continue
		}
		if ts[i] != p.fn.Ret[i] {
			p.fail("cannot return %s as %s", ts[i], p.fn.Ret[i])
		}
	}
	return SReturn{xs}
}

func (p *rparser) cond() RExpr { return p.expr1(tBool_, "condition") }

func (p *rparser) expr1(t RType, what string) RExpr {
	x, tt := p.single()
	if tt != t {
		p.fail("%s: %s where %s is required", what, tt, t)
	}
	return x
}

func (p *rparser) ifStmt() RStmt {
	p.next()
	s := SIf{}
	s.Conds = append(s.Conds, p.cond())
	s.Bodies = append(s.Bodies, p.block())
	for p.is("else") {
		p.next()
		if p.accept("if") {
			s.Conds = append(s.Conds, p.cond())
			s.Bodies = append(s.Bodies, p.block())
			continue
		}
		s.Else = p.block()
		if s.Else == nil {
			s.Else = []RStmt{}
		}
		break
	}
	return s
}

func (p *rparser) switchStmt() RStmt {
	p.next()
	s := SIf{Switch: true}
	p.sw++
	defer func() { p.sw-- }()
	var tag RExpr = ELit{T: tBool_, V: "true"}
	tt := tBool_
	if !p.is("{") {
		tag, tt = p.single()
		if tt.Slice {
			p.fail("switch on slice")
		}
		*p.nvar++
		v := &RVar{Name: "switch tag", T: tt, Global: p.fn == nil, Mod: p.mod.Path, id: *p.nvar}
		s.Init = SDef{[]*RVar{v}, []RExpr{tag}}
		tag = EVar{v}
	}
	p.expect("{")
	if p.peek().Kind != tNewline {
		p.syn("expected newline")
	}
	p.nl()
	seenDef := false
	for !p.accept("}") {
		isCase := p.is("case")
		if isCase {
			if seenDef {
				p.syn("case after default") // neutral: not used in schemas
			}
			p.next()
			x, t := p.single()
			if t != tt {
				p.fail("case %s for switch %s", t, tt)
			}
			s.Conds = append(s.Conds, EBin{"==", tag, x, tBool_})
		} else if p.accept("default") {
			if seenDef {
				p.syn("second default")
			}
			seenDef = true
		} else {
			p.syn("expected case")
		}
		p.expect(":")
		if p.peek().Kind != tNewline {
			p.syn("expected newline")
		}
		p.push(false)
		b := p.stmts(func() bool { return p.is("}") || p.is("case") || p.is("default") || p.peek().Kind == tEOF })
		p.pop()
		if isCase {
			s.Bodies = append(s.Bodies, b)
		} else {
			s.Else = b
			if b == nil {
				s.Else = []RStmt{}
			}
		}
	}
	return s
}

func (p *rparser) forStmt() RStmt {
	p.next()
	p.push(false)
	defer p.pop()
	p.loop++
	sw := p.sw
	p.sw = 0
	defer func() { p.loop--; p.sw = sw }()
	if p.is("{") {
		return SFor{Body: p.block()}
	}
	// range
	if p.peek().Kind == tIdent {
		k := 1
		for p.isAt(k, ",") && p.at(k+1).Kind == tIdent {
			k += 2
		}
		if p.isAt(k, ":=") && p.isAt(k+1, "range") {
			n1 := p.ident()
			n2 := ""
			if p.accept(",") {
				n2 = p.ident()
			}
			p.next()
			p.next()
			x, t := p.single()
			if !t.Slice && t.Name == "int" {
				p.open("range over int")
			} else if !t.Slice && t.Name != "string" {
				p.fail("range over %s", t)
			}
			s := SRange{X: x, Str: !t.Slice}
			s.I = p.define(n1, tInt_)
			if n2 != "" {
				s.V = p.define(n2, RType{t.Name, false})
			}
			s.Body = p.block()
			return s
		}
	}
	// three-clause or condition
	save := p.i
	depth := 0
	semi := false
	for j := p.i; j < len(p.toks); j++ {
		t := p.toks[j]
		if t.Kind == tNewline || t.Kind == tEOF {
			break
		}
		if t.Kind == tOp && t.V == ";" && depth == 0 {
			semi = true
		}
	}
	p.i = save
	if !semi {
		c := p.cond()
		return SFor{Cond: c, Body: p.block()}
	}
	s := SFor{}
	if !p.is(";") {
		s.Init = p.simple()
	}
	p.expect(";")
	if !p.is(";") {
		s.Cond = p.cond()
	}
	p.expect(";")
	if !p.is("{") {
		s.Post = p.simple()
	}
	s.Body = p.block()
	return s
}

// ---------------------------------------------------------------- expressions

// single parses an expression that must have exactly one value.
func (p *rparser) single() (RExpr, RType) {
	x, t := p.exprMulti()
	if len(t) == 0 {
		p.fail("void value used")
	}
	if len(t) != 1 {
		p.fail("multi-value in single-value context")
	}
	return x, t[0]
}

func (p *rparser) exprMulti() (RExpr, []RType) { return p.binary(0) }

var prec = map[string]int{"||": 1, "&&": 2, "==": 3, "!=": 3, "<": 3, "<=": 3, ">": 3, ">=": 3, "+": 4, "-": 4, "*": 5, "/": 5, "%": 5}

func one(p *rparser, t []RType) RType {
	if len(t) == 0 {
		p.fail("void value used")
	}
	if len(t) != 1 {
		p.fail("multi-value in single-value context")
	}
	return t[0]
}

func (p *rparser) binary(min int) (RExpr, []RType) {
	l, lt := p.unary()
	for {
		op := p.peek()
		pr := 0
		if op.Kind == tOp {
			pr = prec[op.V]
		}
		if pr == 0 || pr <= min {
			return l, lt
		}
		p.next()
		r, rt := p.binary(pr)
		a, b := one(p, lt), one(p, rt)
		var t RType
		switch op.V {
		case "&&", "||":
			if a != tBool_ || b != tBool_ {
				p.fail("operator %s on %s and %s", op.V, a, b)
			}
			t = tBool_
		case "==", "!=":
			if a != b || a.Slice {
				p.fail("comparison of %s and %s", a, b)
			}
			t = tBool_
		case "<", "<=", ">", ">=":
			if a != b || a.Slice || a.Name == "bool" {
				p.fail("comparison %s of %s and %s", op.V, a, b)
			}
			if a.Name == "string" && p.proj.P.Lenient {
				p.open("ordering of strings")
			}
			t = tBool_
		default:
			t = p.binType(op.V, a, b)
		}
		l, lt = EBin{op.V, l, r, t}, []RType{t}
	}
}

func (p *rparser) unary() (RExpr, []RType) {
	if p.accept("!") {
		x, t := p.unary()
		if one(p, t) != tBool_ {
			p.fail("! on %s", t[0])
		}
		if _, ok := x.(ENot); ok {
			p.open("repeated !")
		}
		return ENot{x}, []RType{tBool_}
	}
	return p.postfix()
}

func (p *rparser) args() ([]RExpr, []RType) { return p.argsOf(false) }

// argsOf reads arguments; with fwd all values of a single call may be passed on.
func (p *rparser) argsOf(fwd bool) ([]RExpr, []RType) {
	var xs []RExpr
	var ts []RType
	p.expect("(")
	for !p.is(")") {
		x, t := p.exprMulti()
		if !fwd || len(t) == 0 || len(xs) > 0 || !p.is(")") {
			one(p, t)
		}
		xs = append(xs, x)
		ts = append(ts, t...)
		if !p.accept(",") {
			break
		}
	}
	p.expect(")")
	return xs, ts
}

func (p *rparser) postfix() (RExpr, []RType) {
	group := p.is("(")
	x, t := p.primary()
	_, isVar := x.(EVar)
	isVar = isVar && !group
	for k := 0; p.is("["); k++ {
		if k > 0 || !isVar {
			p.open("subscript of an expression")
		}
		xt := one(p, t)
		p.next()
		if !xt.Slice && xt.Name != "string" {
			p.fail("index of %s", xt)
		}
		if xt.Slice {
			i := p.expr1(tInt_, "index")
			p.expect("]")
			et := RType{xt.Name, false}
			x, t = EIdx{x, i, et}, []RType{et}
			continue
		}
		var lo, hi RExpr
		if !p.is(":") {
			lo = p.expr1(tInt_, "index")
			if p.accept("]") {
				x, t = EIdx{x, lo, tStr_}, []RType{tStr_}
				continue
			}
		}
		p.expect(":")
		if !p.is("]") {
			hi = p.expr1(tInt_, "index")
		}
		p.expect("]")
		x, t = ESub{x, lo, hi}, []RType{tStr_}
	}
	return x, t
}

func (p *rparser) callArgs(f *RFunc) []RExpr {
	xs, ts := p.argsOf(true)
	if len(ts) != len(f.Params) {
		p.fail("%s: wrong number of arguments", f.Name)
	}
	for i := range ts {
		if ts[i] != f.Params[i].T {
			p.fail("%s: argument %d is %s, not %s", f.Name, i, ts[i], f.Params[i].T)
		}
	}
	return xs
}

func (p *rparser) primary() (RExpr, []RType) {
	t := p.peek()
	switch t.Kind {
	case tInt:
		p.next()
		return ELit{T: tInt_, V: t.V}, []RType{tInt_}
	case tBool:
		p.next()
		return ELit{T: tBool_, V: t.V}, []RType{tBool_}
	case tString:
		p.next()
		return ELit{T: tStr_, V: p.proj.strText(t.V)}, []RType{tStr_}
	case tNil:
		p.next()
		if k := p.i - 2; k >= 0 && p.toks[k].V == ":=" {
			p.open("definition by nil")
		}
		return ELit{T: tStr_, Nil: true}, []RType{tStr_}
	case tIdent:
		if p.isAt(1, "(") {
			n := p.ident()
			f := p.mod.Funcs[n]
			if f == nil {
				p.fail("undefined function %s", n)
			}
			return ECall{f, p.callArgs(f)}, f.Ret
		}
		if p.isAt(1, ".") {
			al := p.ident()
			p.next()
			n := p.ident()
			m := p.imps[al]
			if m == nil {
				p.fail("undefined alias %s", al)
			}
			f := m.Funcs[n]
			if nm := strings.TrimPrefix(n, "K_"); f == nil || !(nm[0] >= 'A' && nm[0] <= 'Z') {
				p.fail("undefined or private function %s.%s", al, n)
			}
			return ECall{f, p.callArgs(f)}, f.Ret
		}
		v := p.useVar()
		return EVar{v}, []RType{v.T}
	case tOp:
		switch t.V {
		case "(":
			p.next()
			x, ty := p.single()
			p.expect(")")
			return x, []RType{ty}
		case "[":
			ty := p.typ()
			p.expect("{")
			var xs []RExpr
			for !p.is("}") {
				xs = append(xs, p.expr1(RType{ty.Name, false}, "slice element"))
				if !p.accept(",") {
					break
				}
			}
			p.expect("}")
			return ESlice{ty.Name, xs}, []RType{ty}
		case "@":
			return p.app()
		}
	case tKeyword:
		return p.builtin()
	}
	p.syn("unexpected token %q", t.V)
	return nil, nil
}

func (p *rparser) app() (RExpr, []RType) {
	a := EApp{}
	for {
		p.expect("@")
		t := p.next()
		name := t.V
		if t.Kind == tString {
			name = p.proj.strText(t.V)
		} else if t.Kind == tIdent {
			name = p.proj.identText(t.V)
		} else {
			p.i--
			p.syn("program name expected")
		}
		xs, ts := p.args()
		for _, t := range ts {
			if t != tStr_ {
				p.open("program argument %s", t)
			}
		}
		a.Cmds = append(a.Cmds, AppCmd{name, xs})
		if !p.accept("|") {
			break
		}
	}
	return a, []RType{tStr_, tStr_, tInt_}
}

func (p *rparser) builtin() (RExpr, []RType) {
	n := p.next().V
	sig := func(b ...bool) {
		for _, ok := range b {
			if !ok {
				p.fail("bad argument of %s", n)
			}
		}
	}
	mk := func(xs []RExpr, t ...RType) (RExpr, []RType) { return EBuiltin{n, xs, t}, t }
	switch n {
	case "len":
		xs, ts := p.args()
		sig(len(ts) == 1)
		sig(ts[0].Slice || ts[0] == tStr_)
		return mk(xs, tInt_)
	case "print":
		xs, ts := p.argsOf(true)
		if len(ts) == 0 {
			p.open("print without arguments")
		}
		for _, t := range ts {
			if t.Slice {
				p.open("print of a slice")
			}
		}
		return mk(xs)
	case "input":
		xs, ts := p.args()
		sig(len(ts) <= 1)
		sig(len(ts) == 0 || ts[0] == tStr_)
		return mk(xs, tStr_)
	case "copy":
		group := p.isAt(1, "(")
		xs, ts := p.args()
		sig(len(ts) == 2)
		sig(ts[0].Slice, ts[1].Slice, ts[0] == ts[1])
		if _, ok := xs[0].(EVar); !ok || group {
			p.open("copy to an expression")
		}
		return mk(xs, tInt_)
	case "itoa":
		xs, ts := p.args()
		sig(len(ts) == 1)
		sig(ts[0] == tInt_)
		return mk(xs, tStr_)
	case "exists":
		xs, ts := p.args()
		sig(len(ts) == 1)
		sig(ts[0] == tStr_)
		return mk(xs, tBool_)
	case "read":
		xs, ts := p.args()
		sig(len(ts) == 1)
		sig(ts[0] == tStr_)
		return mk(xs, tStr_)
	case "write":
		xs, ts := p.args()
		sig(len(ts) == 2 || len(ts) == 3)
		sig(ts[0] == tStr_, ts[1] == tStr_, len(ts) == 2 || ts[2] == tBool_)
		return mk(xs)
	case "panic":
		xs, ts := p.args()
		sig(len(ts) == 1)
		if ts[0] != tStr_ {
			p.open("panic with %s", ts[0])
		}
		return mk(xs)
	}
	p.i--
	p.syn("unexpected keyword %s", n)
	return nil, nil
}
