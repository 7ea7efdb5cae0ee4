package main

import (
	"fmt"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- reference semantics
// Go meaning of a schema (with the README's eager conditions), over symbolic values.

type Obs struct {
	Out     strings.Builder // stdout template
	Err     strings.Builder // stderr template (shell models only)
	Exit    string          // exit status text
	Ev      []string        // external events: program runs, file writes
	Haz     []hazard        // hazards noted by the shell models
	OutLine []int           // script line that wrote each output line (shell models)
	ErrLine []int
}

type hazard struct {
	what string
	line int
}

type rslice struct {
	el   string
	vals []string
}

type RVal struct {
	s  string // text of scalar ("1"/"0" for bool, decimal for int)
	sl *rslice
}

type reval struct {
	sy     *Sym
	obs    *Obs
	vars   map[int]*RVal
	frames []map[int]*RVal
	inited map[*RModule]bool
	ret    []RVal
	steps  int
	files  map[string]string
	fexist map[string]bool
	stdin  int
	progs  int
	world  *WorldModel
	reads  []map[any]bool // per active statement: variables and slices read by its expressions so far
	strict bool           // strict left-to-right reading of plain variables
}

// wrote notes a write; a write by a called function to something an enclosing statement has already read
// (the order of a plain read and a call is unspecified in Go) ends the obligation unless strict.
func (r *reval) wrote(p any) {
	if r.strict || p == nil {
		return
	}
	for i := 0; i < len(r.reads)-1; i++ {
		if r.reads[i][p] {
			panic(refLimit{"unspecified order of a variable read and a call"})
		}
	}
}

func (r *reval) readOf(p any) {
	if n := len(r.reads); n > 0 {
		r.reads[n-1][p] = true
	}
}

// body runs a nested block: the header's reads are over.
func (r *reval) body(b []RStmt) ctl {
	if n := len(r.reads); n > 0 {
		clear(r.reads[n-1])
	}
	c := r.block(b)
	return c
}

// WorldModel is the environment shared by reference and shell models: files, stdin lines, programs.
type WorldModel struct {
	Files map[string]string // text of files (line store: content without trailing newline)
	Stdin []string
	Progs map[string]ProgModel
	Dirs  map[string]bool
	Steps int // larger bound for the steps of a run
}

// ProgModel gives a program's behaviour: what it writes (from args and stdin) and its exit status.
type ProgModel func(sy *Sym, args []string, stdin string) (out string, errOut string, code string)

type ctl int

const (
	cNone ctl = iota
	cBreak
	cCont
	cRet
	cBreakSw
	cExit
)

type refExit struct{ code string }
type refLimit struct{ msg string }

func refRun(m *RModule, sy *Sym, wm *WorldModel) (obs *Obs, err error) {
	obs = &Obs{Exit: "0"}
	r := &reval{sy: sy, obs: obs, vars: map[int]*RVal{}, inited: map[*RModule]bool{}, world: wm, files: map[string]string{}}
	if wm != nil {
		for k, v := range wm.Files {
			r.files[k] = v
		}
	}
	defer func() {
		sy.Ref = r.steps
		if e := recover(); e != nil {
			switch x := e.(type) {
			case refExit:
				obs.Exit = x.code
			case refLimit:
				err = fmt.Errorf("%s", x.msg)
			default:
				panic(e)
			}
		}
	}()
	r.module(m)
	return obs, nil
}

func (r *reval) module(m *RModule) {
	if r.inited[m] {
		return
	}
	r.inited[m] = true
	r.block(m.Body)
}

func (r *reval) tick() {
	r.steps++
	if r.steps > 5000 {
		panic(refLimit{"reference: too many steps"})
	}
}

func (r *reval) slot(v *RVar) *RVal {
	if !v.Global && len(r.frames) > 0 {
		f := r.frames[len(r.frames)-1]
		if f[v.id] == nil {
			f[v.id] = &RVal{}
		}
		return f[v.id]
	}
	if r.vars[v.id] == nil {
		r.vars[v.id] = &RVal{}
	}
	return r.vars[v.id]
}

func (r *reval) block(b []RStmt) ctl {
	for _, s := range b {
		if c := r.stmt(s); c != cNone {
			return c
		}
	}
	return cNone
}

func (r *reval) evalList(xs []RExpr) []RVal {
	var vs []RVal
	for _, x := range xs {
		vs = append(vs, r.multi(x)...)
	}
	return vs
}

func (r *reval) stmt(s RStmt) ctl {
	r.tick()
	r.reads = append(r.reads, map[any]bool{})
	c := r.stmt1(s)
	r.reads = r.reads[:len(r.reads)-1]
	return c
}

func (r *reval) stmt1(s RStmt) ctl {
	switch s := s.(type) {
	case SImport:
		r.module(s.M)
	case SFunc:
	case SDef:
		vs := r.evalList(s.Vals)
		for i, v := range s.Vars {
			if v.Name == "_" {
				continue
			}
			*r.slot(v) = vs[i]
			r.wrote(r.slot(v))
		}
	case SSliceSet:
		i := r.lin(s.I)
		v := r.eval(s.X)
		sl := r.slot(s.V).sl
		r.wrote(sl)
		r.sliceSet(sl, i, v.s)
	case SExpr:
		r.multiStmt(s.X)
	case SIf:
		if s.Init != nil {
			r.stmt1(s.Init)
		}
		var cs []bool
		for _, c := range s.Conds {
			cs = append(cs, r.eval(c).s == "1")
		}
		body := s.Else
		for i, c := range cs {
			if c {
				body = s.Bodies[i]
				break
			}
		}
		c := r.body(body)
		if c == cBreakSw && s.Switch {
			c = cNone
		}
		return c
	case SFor:
		if s.Init != nil {
			r.stmt(s.Init)
		}
		for {
			r.tick()
			if s.Cond != nil && r.eval(s.Cond).s != "1" {
				return cNone
			}
			c := r.body(s.Body)
			if c == cBreak {
				return cNone
			}
			if c == cRet {
				return c
			}
			if s.Post != nil {
				r.stmt(s.Post)
			}
		}
	case SRange:
		x := r.eval(s.X)
		i := lc(0)
		for {
			r.tick()
			var n Lin
			if s.Str {
				n = r.length(x.s)
			} else {
				n = lc(int64(len(x.sl.vals)))
			}
			if r.sy.cmp(i, n) >= 0 {
				return cNone
			}
			if s.I.Name != "_" {
				*r.slot(s.I) = RVal{s: r.sy.text(i)}
			}
			if s.V != nil && s.V.Name != "_" {
				if s.Str {
					*r.slot(s.V) = RVal{s: r.sy.substr(x.s, i, lc(1))}
				} else {
					*r.slot(s.V) = RVal{s: x.sl.vals[i.c]}
				}
			}
			c := r.body(s.Body)
			if c == cBreak {
				return cNone
			}
			if c == cRet {
				return c
			}
			i = i.add(lc(1))
		}
	case SBreak:
		if s.Switch {
			return cBreakSw
		}
		return cBreak
	case SCont:
		return cCont
	case SReturn:
		r.ret = r.evalList(s.Vals)
		return cRet
	default:
		panic(fmt.Sprintf("stmt %T", s))
	}
	return cNone
}

func (r *reval) sliceSet(sl *rslice, i Lin, v string) {
	if !i.isConst() || i.c < 0 || i.c > 200 {
		panic(refLimit{"symbolic slice index"})
	}
	for int64(len(sl.vals)) <= i.c {
		z := ""
		if sl.el != "string" {
			z = "0"
		}
		sl.vals = append(sl.vals, z)
	}
	sl.vals[i.c] = v
}

// length is the length of a string; the Batch script measures strings character by character, which is
// only followed for texts of known length.
func (r *reval) length(s string) Lin {
	l := r.sy.length(s)
	if r.sy.Bits == 32 && !l.isConst() {
		panic(refLimit{"symbolic length"})
	}
	return l
}

func (r *reval) lin(x RExpr) Lin {
	v := r.eval(x)
	l, ok := r.sy.parseInt(v.s)
	if !ok {
		panic(refLimit{"not an int: " + v.s})
	}
	return l
}

func (r *reval) eval(x RExpr) RVal {
	vs := r.multi(x)
	if len(vs) != 1 {
		panic(fmt.Sprintf("eval: %d values", len(vs)))
	}
	return vs[0]
}

func b01(b bool) RVal {
	if b {
		return RVal{s: "1"}
	}
	return RVal{s: "0"}
}

func (r *reval) multiStmt(x RExpr) {
	if a, ok := x.(EApp); ok {
		r.app(a, false)
		return
	}
	r.multi(x)
}

func (r *reval) multi(x RExpr) []RVal {
	r.tick()
	one := func(v RVal) []RVal { return []RVal{v} }
	switch x := x.(type) {
	case ELit:
		switch x.T {
		case tBool_:
			return one(b01(x.V == "true"))
		case tInt_:
			if strings.HasPrefix(x.V, "-#") {
				return one(RVal{s: r.sy.text(lbase("int:" + x.V[2:]).scale(-1))})
			}
			if strings.HasPrefix(x.V, "#") {
				return one(RVal{s: r.sy.text(lbase("int:" + x.V[1:]))})
			}
			if n, err := strconv.ParseInt(x.V, 10, 64); r.sy.Bits == 32 && (err != nil || n != int64(int32(n))) {
				panic(refLimit{"literal outside the 32-bit range"})
			}
			l, _ := r.sy.parseInt(x.V)
			return one(RVal{s: r.sy.text(l)})
		}
		return one(RVal{s: x.V})
	case EVar:
		r.readOf(r.slot(x.V))
		return one(*r.slot(x.V))
	case ENot:
		return one(b01(r.eval(x.X).s != "1"))
	case EBin:
		a := r.eval(x.L)
		b := r.eval(x.R)
		return one(r.bin(x, a, b))
	case ECall:
		args := r.evalList(x.Args)
		if len(r.frames) > 20 {
			panic(refLimit{"call depth"})
		}
		f := map[int]*RVal{}
		for i, p := range x.F.Params {
			v := args[i]
			f[p.id] = &v
		}
		r.frames = append(r.frames, f)
		r.ret = nil
		r.block(x.F.Body)
		r.frames = r.frames[:len(r.frames)-1]
		ret := r.ret
		r.ret = nil
		return ret
	case EIdx:
		v := r.eval(x.X)
		i := r.lin(x.I)
		if v.sl != nil {
			if !i.isConst() || i.c < 0 || i.c >= int64(len(v.sl.vals)) {
				panic(refLimit{"slice index out of the modelled range"})
			}
			r.readOf(v.sl)
			return one(RVal{s: v.sl.vals[i.c]})
		}
		if r.sy.chars(v.s) && i.isConst() && (i.c < 0 || i.c >= int64(len([]rune(v.s)))) {
			panic(refLimit{"character index out of range"})
		}
		return one(RVal{s: r.sy.substr(v.s, i, lc(1))})
	case ESub:
		v := r.eval(x.X)
		lo := lc(0)
		if x.Lo != nil {
			lo = r.lin(x.Lo)
		}
		hi := r.length(v.s)
		if x.Hi != nil {
			hi = r.lin(x.Hi)
		}
		if r.sy.chars(v.s) && lo.isConst() && hi.isConst() && (lo.c < 0 || lo.c > hi.c || hi.c > int64(len([]rune(v.s)))) {
			panic(refLimit{"substring out of range"})
		}
		return one(RVal{s: r.sy.substr(v.s, lo, hi.sub(lo))})
	case ESlice:
		sl := &rslice{el: x.El}
		for _, e := range x.Vals {
			sl.vals = append(sl.vals, r.eval(e).s)
		}
		return one(RVal{sl: sl})
	case EApp:
		return r.app(x, true)
	case EBuiltin:
		args := r.evalList(x.Args)
		switch x.Name {
		case "len":
			if args[0].sl != nil {
				r.readOf(args[0].sl)
				return one(RVal{s: fmt.Sprint(len(args[0].sl.vals))})
			}
			return one(RVal{s: r.sy.text(r.length(args[0].s))})
		case "print":
			var ss []string
			for _, a := range args {
				ss = append(ss, a.s)
			}
			r.obs.Out.WriteString(strings.Join(ss, " ") + "\n")
			return nil
		case "itoa":
			return one(args[0])
		case "panic":
			r.obs.Out.WriteString("panic: " + args[0].s + "\n")
			panic(refExit{"1"})
		case "copy":
			r.wrote(args[0].sl)
			for i, v := range args[1].sl.vals {
				r.sliceSet(args[0].sl, lc(int64(i)), v)
			}
			return one(RVal{s: fmt.Sprint(len(args[1].sl.vals))})
		case "input":
			if len(args) == 1 && args[0].s != "" {
				r.obs.Ev = append(r.obs.Ev, "prompt "+args[0].s)
			}
			l := ""
			if r.world != nil && r.stdin < len(r.world.Stdin) {
				l = r.world.Stdin[r.stdin]
			}
			r.stdin++
			return one(RVal{s: l})
		case "exists":
			if r.sy.strEq(args[0].s, "") {
				panic(refLimit{"the empty path"})
			}
			_, ok := r.files[args[0].s]
			if r.world != nil && r.world.Dirs[args[0].s] {
				ok = true
			}
			return one(b01(ok))
		case "read":
			c, ok := r.files[args[0].s]
			if !ok {
				panic(refLimit{"read of a missing file"})
			}
			return one(RVal{s: strings.TrimSuffix(c, "\n")})
		case "write":
			if r.sy.strEq(args[0].s, "") {
				panic(refLimit{"the empty path"})
			}
			app := len(args) == 3 && args[2].s == "1"
			if app {
				r.files[args[0].s] += args[1].s + "\n"
			} else {
				r.files[args[0].s] = args[1].s + "\n"
			}
			r.obs.Ev = append(r.obs.Ev, fmt.Sprintf("file %s = %q", args[0].s, r.files[args[0].s]))
			return nil
		}
	}
	panic(fmt.Sprintf("expr %T", x))
}

func (r *reval) bin(x EBin, a, b RVal) RVal {
	lt := typeOf(x.L)
	switch x.Op {
	case "&&":
		return b01(a.s == "1" && b.s == "1")
	case "||":
		return b01(a.s == "1" || b.s == "1")
	}
	if lt == tInt_ {
		la, ok1 := r.sy.parseInt(a.s)
		lb, ok2 := r.sy.parseInt(b.s)
		if !ok1 || !ok2 {
			panic(refLimit{"not an int"})
		}
		switch x.Op {
		case "+", "-", "*", "/", "%":
			l, ok := r.sy.arith(x.Op, la, lb)
			if !ok {
				panic(refLimit{"division by zero"})
			}
			return RVal{s: r.sy.text(l)}
		}
		c := r.sy.cmp(la, lb)
		switch x.Op {
		case "==":
			return b01(c == 0)
		case "!=":
			return b01(c != 0)
		case "<":
			return b01(c < 0)
		case "<=":
			return b01(c <= 0)
		case ">":
			return b01(c > 0)
		case ">=":
			return b01(c >= 0)
		}
	}
	switch x.Op {
	case "+":
		return RVal{s: a.s + b.s}
	case "==":
		return b01(r.sy.strEq(a.s, b.s))
	case "!=":
		return b01(!r.sy.strEq(a.s, b.s))
	case "<":
		return b01(r.sy.strCmp(a.s, b.s) < 0)
	case "<=":
		return b01(r.sy.strCmp(a.s, b.s) <= 0)
	case ">":
		return b01(r.sy.strCmp(a.s, b.s) > 0)
	case ">=":
		return b01(r.sy.strCmp(a.s, b.s) >= 0)
	}
	panic("bin " + x.Op)
}

func typeOf(x RExpr) RType {
	switch x := x.(type) {
	case ELit:
		return x.T
	case EVar:
		return x.V.T
	case EBin:
		return x.T
	case ENot:
		return tBool_
	case ECall:
		if len(x.F.Ret) == 1 {
			return x.F.Ret[0]
		}
	case EIdx:
		return x.T
	case ESub:
		return tStr_
	case ESlice:
		return RType{x.El, true}
	case EBuiltin:
		if len(x.T) == 1 {
			return x.T[0]
		}
	}
	return RType{}
}

// runProg is the shared behaviour of external programs.
func runProg(wm *WorldModel, sy *Sym, obs *Obs, name string, args []string, stdin string) (out, errOut, code string) {
	q := make([]string, len(args))
	for i, a := range args {
		q[i] = fmt.Sprintf("%q", a)
	}
	obs.Ev = append(obs.Ev, fmt.Sprintf("run %s [%s] <%q", name, strings.Join(q, " "), stdin))
	if wm != nil {
		if p, ok := wm.Progs[name]; ok {
			return p(sy, args, stdin)
		}
	}
	return "", "", "0"
}

func (r *reval) app(a EApp, used bool) []RVal {
	// all arguments of the whole chain are evaluated first, left to right
	var argv [][]string
	for _, c := range a.Cmds {
		var as []string
		for _, v := range r.evalList(c.Args) {
			as = append(as, v.s)
		}
		argv = append(argv, as)
	}
	in := ""
	out, code, allErr := "", "0", ""
	for i, c := range a.Cmds {
		var e string
		out, e, code = runProg(r.world, r.sy, r.obs, c.Name, argv[i], in)
		in = out
		allErr += e
	}
	if !used {
		r.obs.Out.WriteString(out)
		return nil
	}
	return []RVal{{s: strings.TrimRight(out, "\n")}, {s: strings.TrimRight(allErr, "\n")}, {s: code}}
}
