package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- compiled functions

type opndKind uint8

const (
	oNil opndKind = iota
	oReg
	oConst
	oStr
	oGlobal
)

type opnd struct {
	k opndKind
	i int
	v Value
	g *ssa.Global
}

type cinstr struct {
	in  ssa.Instruction
	ops []opnd
	dst int
}

type cfunc struct {
	fn     *ssa.Function
	name   string
	pkg    string
	repo   bool
	interp bool
	native func(in *Interp, args []Value) Value
	nregs  int
	blocks [][]cinstr
	nphi   []int
	params []int
	free   []int
	locals []int
}

var cfuncs sync.Map

func origName(fn *ssa.Function) string {
	o := fn
	if fn.Origin() != nil {
		o = fn.Origin()
	}
	return o.RelString(nil)
}

func (w *World) compile(fn *ssa.Function) *cfunc {
	if c, ok := cfuncs.Load(fn); ok {
		return c.(*cfunc)
	}
	c := &cfunc{fn: fn, name: origName(fn)}
	pkg := fn.Pkg
	if pkg == nil && fn.Origin() != nil {
		pkg = fn.Origin().Pkg
	}
	if pkg == nil && fn.Object() != nil && fn.Object().Pkg() != nil {
		pkg = w.Prog.ImportedPackage(fn.Object().Pkg().Path())
		if pkg == nil {
			pkg = w.ByPath[fn.Object().Pkg().Path()]
		}
	}
	if pkg == nil && fn.Parent() != nil {
		p := fn.Parent()
		for p.Parent() != nil {
			p = p.Parent()
		}
		pkg = p.Pkg
		if pkg == nil && p.Origin() != nil {
			pkg = p.Origin().Pkg
		}
	}
	if pkg != nil {
		c.pkg = pkg.Pkg.Path()
		c.repo = w.Repo[pkg]
		c.interp = c.repo || w.Interp[c.pkg]
		if c.pkg == "fmt" && strings.Contains(c.name, "wrapError") {
			c.interp = true
		}
	} else {
		c.interp = true // synthetic wrapper
	}
	if fn.Synthetic != "" && len(fn.Blocks) > 0 && fn.Origin() == nil {
		c.interp = true
	}
	c.native = intrinsics[c.name]
	if len(fn.Blocks) > 0 && c.native == nil {
		reg := map[ssa.Value]int{}
		add := func(v ssa.Value) int {
			i := len(reg)
			reg[v] = i
			return i
		}
		for _, p := range fn.Params {
			c.params = append(c.params, add(p))
		}
		for _, p := range fn.FreeVars {
			c.free = append(c.free, add(p))
		}
		for _, b := range fn.Blocks {
			for _, in := range b.Instrs {
				if v, ok := in.(ssa.Value); ok {
					add(v)
				}
			}
		}
		c.nregs = len(reg)
		var rbuf []*ssa.Value
		for _, b := range fn.Blocks {
			var ci []cinstr
			phis := 0
			for _, in := range b.Instrs {
				if _, ok := in.(*ssa.DebugRef); ok {
					continue
				}
				if _, ok := in.(*ssa.Phi); ok {
					phis++
				}
				x := cinstr{in: in, dst: -1}
				if v, ok := in.(ssa.Value); ok {
					x.dst = reg[v]
				}
				rbuf = in.Operands(rbuf[:0])
				for _, r := range rbuf {
					x.ops = append(x.ops, mkOpnd(*r, reg, in))
				}
				ci = append(ci, x)
			}
			c.blocks = append(c.blocks, ci)
			c.nphi = append(c.nphi, phis)
		}
	}
	act, _ := cfuncs.LoadOrStore(fn, c)
	return act.(*cfunc)
}

func mkOpnd(v ssa.Value, reg map[ssa.Value]int, in ssa.Instruction) opnd {
	switch v := v.(type) {
	case nil:
		return opnd{}
	case *ssa.Const:
		cv := constVal(v)
		if s, ok := cv.(Str); ok && len(s.p) == 1 {
			p := in.Pos()
			if !p.IsValid() {
				p = instrPos(in)
			}
			return opnd{k: oConst, v: SO(s.p[0].s, p)}
		}
		return opnd{k: oConst, v: cv}
	case *ssa.Function:
		return opnd{k: oConst, v: v}
	case *ssa.Builtin:
		return opnd{k: oConst, v: v}
	case *ssa.Global:
		return opnd{k: oGlobal, g: v}
	}
	i, ok := reg[v]
	if !ok {
		panic(fmt.Sprintf("no register for %v in %v", v, in))
	}
	return opnd{k: oReg, i: i}
}

// instrPos finds a usable position for an instruction without one.
func instrPos(in ssa.Instruction) token.Pos {
	b := in.Block()
	if b == nil {
		return token.NoPos
	}
	found := false
	for _, x := range b.Instrs {
		if x == in {
			found = true
		}
		if found && x.Pos().IsValid() {
			return x.Pos()
		}
	}
	for i := len(b.Instrs) - 1; i >= 0; i-- {
		if b.Instrs[i].Pos().IsValid() {
			return b.Instrs[i].Pos()
		}
	}
	return in.Parent().Pos()
}

func constVal(c *ssa.Const) Value {
	if c.Value == nil {
		return zero(c.Type())
	}
	t := c.Type().Underlying()
	if b, ok := t.(*types.Basic); ok {
		switch {
		case b.Info()&types.IsBoolean != 0:
			return constant.BoolVal(c.Value)
		case b.Info()&types.IsInteger != 0:
			if b.Info()&types.IsUnsigned != 0 {
				return int64(c.Uint64())
			}
			return c.Int64()
		case b.Info()&types.IsFloat != 0:
			return c.Float64()
		case b.Info()&types.IsString != 0:
			if c.Value.Kind() == constant.String {
				return S(constant.StringVal(c.Value))
			}
			return S(string(rune(c.Int64())))
		}
	}
	if c.Value.Kind() == constant.String {
		return S(constant.StringVal(c.Value))
	}
	return &Opaque{name: c.String()}
}

// ---------------------------------------------------------------- interpreter

type abort struct {
	kind string // undecided | bound | diverge | exit
	msg  string
	code int64
}

type targetPanic struct {
	v     Value
	msg   string
	stack []string
}

type frame struct {
	in     *Interp
	cf     *cfunc
	regs   []Value
	caller *frame
	pos    token.Pos
	block  int
	prev   int
	defers *deferred
	result Value

	panicking bool
	panicVal  any
}

type deferred struct {
	fn   Value
	args []Value
	tail *deferred
	pos  token.Pos
}

type choice struct {
	key string
	n   int
	c   int
}

// Interp evaluates one path; decisions beyond the prefix take alternative 0.
type Interp struct {
	w       *World
	atoms   *Atoms
	globals map[*ssa.Global]*Value
	hooks   map[string]func(in *Interp, args []Value) Value

	prefix  []int
	choices []choice
	facts   map[string]bool

	steps    int
	maxSteps int
	depth    int
	maxDepth int
	cur      *frame

	funcs map[*cfunc]int // executed functions
	doms  int
	limit int // ⊤ depth limit

	raw   bool           // opaque texts are concrete texts of bytes in generic position
	extra map[string]any // rule specific state
}

func newInterp(w *World, atoms *Atoms) *Interp {
	return &Interp{w: w, atoms: atoms, globals: map[*ssa.Global]*Value{}, facts: map[string]bool{},
		maxSteps: 3_000_000, maxDepth: 2500, funcs: map[*cfunc]int{}, hooks: map[string]func(*Interp, []Value) Value{}, extra: map[string]any{}}
}

func (in *Interp) undecided(f string, a ...any) {
	panic(abort{kind: "undecided", msg: fmt.Sprintf(f, a...) + " at " + in.where()})
}

func (in *Interp) where() string {
	st := in.stack(4)
	return strings.Join(st, " <- ")
}

func (in *Interp) stack(n int) []string {
	var r []string
	for f := in.cur; f != nil && len(r) < n; f = f.caller {
		r = append(r, fmt.Sprintf("%s (%s)", f.cf.fn.RelString(nil), in.w.pos(f.pos)))
	}
	return r
}

func (in *Interp) choose(key string, n int) int {
	i := len(in.choices)
	c := 0
	if i < len(in.prefix) {
		c = in.prefix[i]
	}
	if len(in.choices) > 400 {
		panic(abort{kind: "undecided", msg: "too many splits on one path: " + key})
	}
	in.choices = append(in.choices, choice{key, n, c})
	return c
}

func (in *Interp) decide(key string) bool {
	if b, ok := in.facts[key]; ok {
		return b
	}
	b := in.choose(key, 2) == 0
	in.facts[key] = b
	return b
}

func (in *Interp) truth(v Value) bool {
	switch v := v.(type) {
	case bool:
		return v
	case *SBool:
		return in.decide(v.key) != v.neg
	}
	in.undecided("condition %T", v)
	return false
}

func (in *Interp) rtPanic(msg string) {
	panic(targetPanic{v: Iface{}, msg: "runtime error: " + msg, stack: in.stack(8)})
}

func (in *Interp) global(g *ssa.Global) *Value {
	if p, ok := in.globals[g]; ok {
		return p
	}
	p := new(Value)
	*p = zero(g.Type().(*types.Pointer).Elem())
	in.globals[g] = p
	if !in.w.Repo[g.Pkg] {
		if f, ok := stdGlobals[g.Pkg.Pkg.Path()+"."+g.Name()]; ok {
			*p = f(in)
		} else if in.w.Interp[g.Pkg.Pkg.Path()] && g.Pkg.Pkg.Path() != "unicode" {
			in.initStd(g.Pkg)
		}
	}
	return p
}

// initStd evaluates only the package's own variable initialisers.
func (in *Interp) initStd(p *ssa.Package) {
	k := "init:" + p.Pkg.Path()
	if in.extra[k] != nil {
		return
	}
	in.extra[k] = true
	if f := p.Func("init"); f != nil {
		in.extra["initpkg"] = p
		in.callFn(f, nil, nil)
	}
}

func (in *Interp) initRepo() {
	for _, p := range in.w.Globals {
		if f := p.Func("init"); f != nil {
			in.callFn(f, nil, nil)
		}
	}
}

func (fr *frame) val(o *opnd) Value {
	switch o.k {
	case oReg:
		return fr.regs[o.i]
	case oConst:
		switch o.v.(type) {
		case Struct, Array:
			return copyVal(o.v) // compiled code is shared between paths and goroutines
		}
		return o.v
	case oGlobal:
		return fr.in.global(o.g)
	}
	return nil
}

// call invokes any callable value.
func (in *Interp) call(fn Value, args []Value, pos token.Pos) Value {
	switch f := fn.(type) {
	case *ssa.Function:
		if f == nil {
			in.rtPanic("invalid memory address or nil pointer dereference (call of nil func)")
		}
		return in.callFn(f, args, nil)
	case *Closure:
		return in.callFn(f.fn, args, f.env)
	case *Prim:
		return f.f(in, args)
	}
	in.undecided("call of %T", fn)
	return nil
}

func (in *Interp) callFn(fn *ssa.Function, args []Value, env []Value) Value {
	cf := in.w.compile(fn)
	if len(in.hooks) > 0 {
		if h, ok := in.hooks[cf.name]; ok {
			return h(in, args)
		}
	}
	if cf.native != nil {
		return cf.native(in, args)
	}
	if fn.Synthetic == "package initializer" && !cf.repo {
		if p, _ := in.extra["initpkg"].(*ssa.Package); p != fn.Pkg {
			return nil
		}
		in.extra["initpkg"] = (*ssa.Package)(nil)
	}
	if cf.blocks == nil || !cf.interp {
		if v, ok := in.nativeStd(cf, args); ok {
			return v
		}
		in.undecided("call of unmodelled function %s", cf.name)
	}
	if !cf.repo && cf.pkg != "" && cf.pkg != "slices" && cf.pkg != "maps" && cf.pkg != "errors" && cf.pkg != "sort" && cf.pkg != "cmp" {
		// prefer the native function on concrete arguments
		if v, ok := in.nativeStd(cf, args); ok {
			return v
		}
	}
	in.funcs[cf]++
	in.depth++
	if in.depth > in.maxDepth {
		panic(abort{kind: "diverge", msg: "unbounded recursion: " + strings.Join(in.stack(10), " <- ")})
	}
	fr := &frame{in: in, cf: cf, regs: make([]Value, cf.nregs), caller: in.cur, pos: fn.Pos()}
	if len(args) != len(cf.params) {
		in.undecided("arity mismatch calling %s", cf.name)
	}
	for i, r := range cf.params {
		fr.regs[r] = args[i]
	}
	for i, r := range cf.free {
		fr.regs[r] = env[i]
	}
	saved := in.cur
	in.cur = fr
	fr.exec()
	in.cur = saved
	in.depth--
	return fr.result
}

func (fr *frame) exec() {
	if fr.cf.fn.Recover != nil {
		fr.execDefer()
		return
	}
	fr.loop()
}

func (fr *frame) execDefer() {
	in := fr.in
	depth := in.depth
	defer func() {
		if fr.block < 0 {
			return // normal return
		}
		r := recover()
		if _, ok := r.(targetPanic); !ok {
			panic(r)
		}
		in.cur = fr
		in.depth = depth
		fr.panicking = true
		fr.panicVal = r
		fr.runDefers()
		// recovered: run the recover block
		fr.block = fr.cf.fn.Recover.Index
		fr.prev = -1
		fr.loop()
	}()
	fr.loop()
}

func (fr *frame) runDefers() {
	for fr.defers != nil {
		d := fr.defers
		fr.defers = d.tail
		func() {
			ok := false
			defer func() {
				if !ok {
					r := recover()
					if _, isT := r.(targetPanic); !isT {
						panic(r)
					}
					fr.in.cur = fr
					fr.panicking = true
					fr.panicVal = r
				}
			}()
			if b, isB := d.fn.(*ssa.Builtin); isB {
				fr.in.builtin(fr, b, d.args, nil)
			} else {
				fr.in.call(d.fn, d.args, d.pos)
			}
			ok = true
		}()
	}
	if fr.panicking {
		panic(fr.panicVal)
	}
}

func (fr *frame) loop() {
	in := fr.in
	var phitmp []Value
	for fr.block >= 0 {
		code := fr.cf.blocks[fr.block]
		np := fr.cf.nphi[fr.block]
		if np > 0 {
			bb := fr.cf.fn.Blocks[fr.block]
			edge := -1
			for i, p := range bb.Preds {
				if p.Index == fr.prev {
					edge = i
					break
				}
			}
			phitmp = phitmp[:0]
			for i := 0; i < np; i++ {
				phitmp = append(phitmp, fr.val(&code[i].ops[edge]))
			}
			for i := 0; i < np; i++ {
				fr.regs[code[i].dst] = phitmp[i]
			}
		}
		in.steps += len(code)
		if in.steps > in.maxSteps {
			panic(abort{kind: "diverge", msg: "no termination within the step budget: " + strings.Join(in.stack(6), " <- ")})
		}
		next := false
		for i := np; i < len(code); i++ {
			if fr.step(&code[i]) {
				next = true
				break
			}
		}
		if !next {
			in.undecided("fell off block")
		}
	}
}

func (fr *frame) jump(b *ssa.BasicBlock) {
	fr.prev = fr.block
	fr.block = b.Index
}

func (in *Interp) deref(p Value) *Value {
	switch p := p.(type) {
	case *Value:
		if p == nil {
			in.rtPanic("invalid memory address or nil pointer dereference")
		}
		return p
	}
	in.undecided("dereference of %T", p)
	return nil
}

func (in *Interp) prepareCall(fr *frame, c *ssa.CallCommon, ops []opnd) (Value, []Value) {
	v := fr.val(&ops[0])
	var fn Value
	args := make([]Value, 0, len(c.Args)+1)
	if c.Method == nil {
		fn = v
	} else {
		recv, ok := v.(Iface)
		if !ok {
			in.undecided("invoke on %T", v)
		}
		if recv.t == nil {
			in.rtPanic("invalid memory address or nil pointer dereference (method call on nil interface)")
		}
		if o, ok := recv.v.(*Opaque); ok && o != nil {
			if m, ok := o.v.(interface {
				Invoke(in *Interp, name string, args []Value) Value
			}); ok {
				var as []Value
				for i := range c.Args {
					as = append(as, fr.val(&ops[1+i]))
				}
				name := c.Method.Name()
				return &Prim{name: name, f: func(in *Interp, args []Value) Value { return m.Invoke(in, name, args) }}, as
			}
		}
		m := in.w.Prog.LookupMethod(recv.t, c.Method.Pkg(), c.Method.Name())
		if m == nil {
			in.undecided("method %s not found on %v", c.Method.Name(), recv.t)
		}
		fn = m
		args = append(args, recv.v)
	}
	for i := range c.Args {
		a := fr.val(&ops[1+i])
		args = append(args, a)
	}
	return fn, args
}

// step interprets one instruction; true means control transfer.
func (fr *frame) step(ci *cinstr) bool {
	in := fr.in
	ops := ci.ops
	if p := ci.in.Pos(); p.IsValid() {
		fr.pos = p
	}
	switch x := ci.in.(type) {
	case *ssa.UnOp:
		fr.regs[ci.dst] = in.unop(fr, x, fr.val(&ops[0]))
	case *ssa.BinOp:
		fr.regs[ci.dst] = in.binop(x.Op, x.X.Type(), fr.val(&ops[0]), fr.val(&ops[1]))
	case *ssa.Call:
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			args := make([]Value, len(x.Call.Args))
			for i := range args {
				args[i] = fr.val(&ops[1+i])
			}
			fr.regs[ci.dst] = in.builtin(fr, b, args, &x.Call)
			return false
		}
		fn, args := in.prepareCall(fr, &x.Call, ops)
		fr.regs[ci.dst] = in.call(fn, args, x.Pos())
	case *ssa.ChangeInterface:
		fr.regs[ci.dst] = fr.val(&ops[0])
	case *ssa.ChangeType:
		fr.regs[ci.dst] = fr.val(&ops[0])
	case *ssa.Convert:
		fr.regs[ci.dst] = in.convert(x.Type(), x.X.Type(), fr.val(&ops[0]))
	case *ssa.MultiConvert:
		fr.regs[ci.dst] = in.convert(x.Type(), x.X.Type(), fr.val(&ops[0]))
	case *ssa.MakeInterface:
		fr.regs[ci.dst] = Iface{t: x.X.Type(), v: fr.val(&ops[0])}
	case *ssa.Extract:
		t, ok := fr.val(&ops[0]).(Tuple)
		if !ok {
			in.undecided("extract from %T", fr.val(&ops[0]))
		}
		fr.regs[ci.dst] = t[x.Index]
	case *ssa.Slice:
		fr.regs[ci.dst] = in.slice(fr.val(&ops[0]), fr.val(&ops[1]), fr.val(&ops[2]), fr.val(&ops[3]))
	case *ssa.Return:
		switch len(ops) {
		case 0:
			fr.result = nil
		case 1:
			fr.result = fr.val(&ops[0])
		default:
			t := make(Tuple, len(ops))
			for i := range ops {
				t[i] = fr.val(&ops[i])
			}
			fr.result = t
		}
		fr.block = -1
		return true
	case *ssa.RunDefers:
		fr.runDefers()
	case *ssa.Panic:
		v := fr.val(&ops[0])
		panic(targetPanic{v: v, msg: in.describe(v), stack: in.stack(8)})
	case *ssa.Store:
		storeTo(in.deref(fr.val(&ops[0])), fr.val(&ops[1]))
	case *ssa.If:
		if in.truth(fr.val(&ops[0])) {
			fr.jump(x.Block().Succs[0])
		} else {
			fr.jump(x.Block().Succs[1])
		}
		return true
	case *ssa.Jump:
		fr.jump(x.Block().Succs[0])
		return true
	case *ssa.Defer:
		var fn Value
		var args []Value
		if b, ok := x.Call.Value.(*ssa.Builtin); ok {
			fn = b
			for i := range x.Call.Args {
				args = append(args, fr.val(&ops[1+i]))
			}
		} else {
			fn, args = in.prepareCall(fr, &x.Call, ops)
		}
		target := fr
		if x.DeferStack != nil {
			if o, ok := fr.val(&ops[len(ops)-1]).(*Opaque); ok && o != nil {
				target = o.v.(*frame)
			}
		}
		target.defers = &deferred{fn: fn, args: args, tail: target.defers, pos: x.Pos()}
	case *ssa.Alloc:
		p := new(Value)
		*p = zero(x.Type().Underlying().(*types.Pointer).Elem())
		fr.regs[ci.dst] = p
	case *ssa.MakeSlice:
		n := in.asInt(fr.val(&ops[0]))
		c := in.asInt(fr.val(&ops[1]))
		if n < 0 || c < n {
			in.rtPanic("makeslice: len out of range")
		}
		if c > 1<<20 {
			in.undecided("huge slice")
		}
		s := make(Slice, c)
		el := x.Type().Underlying().(*types.Slice).Elem()
		for i := range s {
			s[i] = zero(el)
		}
		fr.regs[ci.dst] = s[:n]
	case *ssa.MakeMap:
		fr.regs[ci.dst] = newMap()
	case *ssa.Range:
		fr.regs[ci.dst] = in.rangeOver(fr.val(&ops[0]))
	case *ssa.Next:
		fr.regs[ci.dst] = in.next(fr.val(&ops[0]), x)
	case *ssa.FieldAddr:
		p := in.deref(fr.val(&ops[0]))
		s, ok := (*p).(Struct)
		if !ok {
			in.undecided("field of %T", *p)
		}
		fr.regs[ci.dst] = &s[x.Field]
	case *ssa.Field:
		s, ok := fr.val(&ops[0]).(Struct)
		if !ok {
			in.undecided("field of %T", fr.val(&ops[0]))
		}
		fr.regs[ci.dst] = s[x.Field]
	case *ssa.IndexAddr:
		base := fr.val(&ops[0])
		switch b := base.(type) {
		case Slice:
			i := in.index(fr.val(&ops[1]), len(b))
			fr.regs[ci.dst] = &b[i]
		case *Value:
			p := in.deref(b)
			a, ok := (*p).(Array)
			if !ok {
				in.undecided("index of %T", *p)
			}
			i := in.index(fr.val(&ops[1]), len(a))
			fr.regs[ci.dst] = &a[i]
		default:
			in.undecided("index of %T", base)
		}
	case *ssa.Index:
		switch b := fr.val(&ops[0]).(type) {
		case Array:
			fr.regs[ci.dst] = b[in.index(fr.val(&ops[1]), len(b))]
		case Str:
			fr.regs[ci.dst] = in.strIndex(b, fr.val(&ops[1]))
		default:
			in.undecided("index of %T", b)
		}
	case *ssa.Lookup:
		fr.regs[ci.dst] = in.lookup(x, fr.val(&ops[0]), fr.val(&ops[1]))
	case *ssa.MapUpdate:
		m, ok := fr.val(&ops[0]).(*Map)
		if !ok {
			in.undecided("map update on %T", fr.val(&ops[0]))
		}
		if m == nil {
			in.rtPanic("assignment to entry in nil map")
		}
		key := fr.val(&ops[1])
		k, kv := in.mapKey(m, key)
		m.set(k, kv, copyVal(fr.val(&ops[2])))
	case *ssa.TypeAssert:
		fr.regs[ci.dst] = in.typeAssert(x, fr.val(&ops[0]))
	case *ssa.MakeClosure:
		var env []Value
		for i := range x.Bindings {
			env = append(env, fr.val(&ops[1+i]))
		}
		fr.regs[ci.dst] = &Closure{fn: x.Fn.(*ssa.Function), env: env}
	case *ssa.SliceToArrayPointer:
		s, ok := fr.val(&ops[0]).(Slice)
		n := int(x.Type().Underlying().(*types.Pointer).Elem().Underlying().(*types.Array).Len())
		if !ok || len(s) < n {
			in.rtPanic("cannot convert slice to array pointer")
		}
		p := new(Value)
		*p = Array(s[:n])
		fr.regs[ci.dst] = p
	default:
		in.undecided("instruction %T", ci.in)
	}
	return false
}

func (in *Interp) describe(v Value) string {
	switch x := v.(type) {
	case Iface:
		if x.t == nil {
			return "nil"
		}
		if s, ok := x.v.(Str); ok {
			return in.atoms.show(s.flat())
		}
		if m := in.w.Prog.LookupMethod(x.t, nil, "Error"); m != nil {
			if s, ok := in.safeCall(m, x.v).(Str); ok {
				return in.atoms.show(s.flat())
			}
		}
		return fmt.Sprintf("%v", x.t)
	case Str:
		return in.atoms.show(x.flat())
	}
	return fmt.Sprintf("%v", v)
}

func (in *Interp) safeCall(m *ssa.Function, recv Value) (r Value) {
	defer func() {
		if e := recover(); e != nil {
			r = nil
		}
	}()
	return in.callFn(m, []Value{recv}, nil)
}

// ---------------------------------------------------------------- exploration

type PathResult struct {
	Choices []choice
	Panic   *targetPanic
	Abort   *abort
	Result  Value
	In      *Interp
}

// explore runs body on every path (at most maxPaths) and hands each result to visit.
func explore(w *World, atoms *Atoms, maxPaths int, setup func(in *Interp), body func(in *Interp) Value, visit func(r *PathResult)) (paths int, complete bool) {
	var prefix []int
	for {
		in := newInterp(w, atoms)
		in.prefix = prefix
		if setup != nil {
			setup(in)
		}
		r := runPath(in, body)
		paths++
		visit(r)
		// backtrack
		ch := in.choices
		i := len(ch) - 1
		for i >= 0 && ch[i].c+1 >= ch[i].n {
			i--
		}
		if i < 0 {
			return paths, true
		}
		if paths >= maxPaths {
			return paths, false
		}
		np := make([]int, i+1)
		for k := 0; k < i; k++ {
			np[k] = ch[k].c
		}
		np[i] = ch[i].c + 1
		prefix = np
	}
}

func runPath(in *Interp, body func(in *Interp) Value) (res *PathResult) {
	res = &PathResult{In: in}
	defer func() {
		if e := recover(); e != nil {
			switch e := e.(type) {
			case abort:
				res.Abort = &e
			case targetPanic:
				res.Panic = &e
			default:
				if debugPanics {
					panic(e)
				}
				res.Abort = &abort{kind: "undecided", msg: fmt.Sprintf("internal: %v at %s", e, in.where())}
			}
		}
		res.Choices = in.choices
	}()
	in.initRepo()
	res.Result = body(in)
	return
}

var debugPanics = false
