package main

import (
	"fmt"
	"strings"
)

// ---------------------------------------------------------------- grammar-directed program schemas
// A deterministic enumerator of well-typed programs: every choice is drawn from a counter-based
// generator, so program k of a family is the same on every run.

type rng struct{ s uint64 }

func (r *rng) next() uint64 {
	r.s += 0x9e3779b97f4a7c15
	z := r.s
	z = (z ^ (z >> 30)) * 0xbf58476d1ce4e5b9
	z = (z ^ (z >> 27)) * 0x94d049bb133111eb
	return z ^ (z >> 31)
}
func (r *rng) n(k int) int         { return int(r.next() % uint64(k)) }
func (r *rng) p(num, den int) bool { return r.n(den) < num }
func pick[T any](r *rng, xs []T) T { return xs[r.n(len(xs))] }

type gvar struct {
	name   string
	t      string // int bool string []int []string []bool
	ro     bool
	minLen int // known lower bound of the length (slices, constant strings)
	global bool
}

type gfunc struct {
	name   string
	params []string
	ret    []string
}

type gfeat struct {
	Str, Slice, Func, Subs, Loops, Switch, Multi bool
	Sym                                          int // number of opaque ints
	SymStr                                       int
	Side                                         bool // functions print (evaluation order becomes visible)
	Size                                         int
	Panic                                        bool
	NoChars                                      bool // cmd-neutral: no empty strings etc.
	Globals                                      bool
	Globalw                                      bool
}

type gen struct {
	r     *rng
	f     gfeat
	o     strings.Builder
	ind   int
	sc    []gvar
	funcs []gfunc
	loop  int
	fn    *gfunc
	left  int
	sym   int
	syms  int
	ctr   int
	pure  bool // no calls allowed
	nostr bool
}

var gnames = []string{"a", "b", "c", "d", "e", "k", "m", "n", "p", "q", "s", "t", "u", "v", "w", "x", "y", "z"}

func (g *gen) line(f string, a ...any) {
	g.o.WriteString(strings.Repeat("    ", g.ind) + fmt.Sprintf(f, a...) + "\n")
}

func (g *gen) fresh() string {
	for try := 0; try < 30; try++ {
		n := pick(g.r, gnames)
		if !g.visible(n) {
			return n
		}
	}
	for {
		g.ctr++
		n := fmt.Sprintf("v%d", g.ctr)
		if !g.visible(n) {
			return n
		}
	}
}

func (g *gen) visible(n string) bool {
	for _, v := range g.sc {
		if v.name == n {
			return true
		}
	}
	for _, f := range g.funcs {
		if f.name == n {
			return true
		}
	}
	return false
}

func (g *gen) varsOf(t string, writable bool) []int {
	var r []int
	for i, v := range g.sc {
		if v.t == t && !(writable && v.ro) {
			r = append(r, i)
		}
	}
	return r
}

func (g *gen) types() []string {
	ts := []string{"int", "int", "bool"}
	if g.f.Str {
		ts = append(ts, "string", "string")
	}
	if g.f.Slice {
		ts = append(ts, "[]int", "[]string")
	}
	return ts
}
func (g *gen) scalar() string {
	ts := []string{"int", "int", "bool"}
	if g.f.Str {
		ts = append(ts, "string")
	}
	return pick(g.r, ts)
}

func (g *gen) call(t string, d int) (string, bool) {
	if g.pure {
		return "", false
	}
	var c []gfunc
	for _, f := range g.funcs {
		if len(f.ret) == 1 && f.ret[0] == t && (g.fn == nil || f.name != g.fn.name) {
			c = append(c, f)
		}
	}
	if len(c) == 0 {
		return "", false
	}
	f := pick(g.r, c)
	return g.callText(f, d), true
}

func (g *gen) callText(f gfunc, d int) string {
	var as []string
	for _, p := range f.params {
		as = append(as, g.expr(p, d-1))
	}
	return f.name + "(" + strings.Join(as, ", ") + ")"
}

var gstrs = []string{`"x"`, `"ab"`, `"hello"`, `"a b"`, `"Zed9"`}

func (g *gen) expr(t string, d int) string {
	r := g.r
	vs := g.varsOf(t, false)
	if d <= 0 || r.p(2, 7) {
		if len(vs) > 0 && r.p(3, 4) {
			return g.sc[pick(r, vs)].name
		}
		switch t {
		case "int":
			if g.sym > 0 && r.p(1, 3) {
				g.syms++
				return fmt.Sprintf("#i%d", r.n(g.sym))
			}
			return fmt.Sprint(pick(r, []int{0, 1, 2, 3, 5, 7, 10, 42}))
		case "bool":
			return pick(r, []string{"true", "false"})
		case "string":
			if g.f.SymStr > 0 && r.p(1, 3) {
				return fmt.Sprintf(`"\x01s%d\x01"`, r.n(g.f.SymStr))
			}
			if !g.f.NoChars && r.p(1, 6) {
				return `""`
			}
			return pick(r, gstrs)
		}
	}
	if r.p(1, 4) {
		if s, ok := g.call(t, d); ok {
			return s
		}
	}
	switch t {
	case "int":
		switch k := r.n(9); {
		case k < 4:
			op := pick(r, []string{"+", "-", "*"})
			return g.operand("int", d-1) + " " + op + " " + g.operand("int", d-1)
		case k == 4:
			return g.operand("int", d-1) + pick(r, []string{" / ", " % "}) + fmt.Sprint(pick(r, []int{1, 2, 3, 7}))
		case k == 5:
			return "(" + g.expr("int", d-1) + ")"
		case k == 6 && g.f.Subs:
			if vs := g.varsOf("string", false); len(vs) > 0 {
				v := g.sc[pick(r, vs)]
				if v.minLen > 0 {
					return "len(" + v.name + ")"
				}
			}
		case k == 7 && g.f.Slice:
			if vs := append(g.varsOf("[]int", false), g.varsOf("[]string", false)...); len(vs) > 0 {
				return "len(" + g.sc[pick(r, vs)].name + ")"
			}
		case k == 8 && g.f.Slice:
			var c []gvar
			for _, i := range g.varsOf("[]int", false) {
				if g.sc[i].minLen > 0 {
					c = append(c, g.sc[i])
				}
			}
			if len(c) > 0 {
				v := pick(r, c)
				return fmt.Sprintf("%s[%s]", v.name, g.index(v.minLen, d))
			}
		}
		return g.expr("int", d-1)
	case "bool":
		switch k := r.n(8); {
		case k < 3:
			op := pick(r, []string{"==", "!=", "<", "<=", ">", ">="})
			return g.operand("int", d-1) + " " + op + " " + g.operand("int", d-1)
		case k == 3 && g.f.Str:
			return g.operand("string", d-1) + pick(r, []string{" == ", " != "}) + g.operand("string", d-1)
		case k == 4 || k == 5:
			return g.operand("bool", d-1) + pick(r, []string{" && ", " || "}) + g.operand("bool", d-1)
		case k == 6:
			return "!" + g.atomOf("bool", d-1)
		case k == 7:
			return "(" + g.expr("bool", d-1) + ")"
		}
		return g.expr("bool", d-1)
	case "string":
		switch k := r.n(6); {
		case k < 2:
			return g.operand("string", d-1) + " + " + g.operand("string", d-1)
		case k == 2:
			return "itoa(" + g.expr("int", d-1) + ")"
		case k == 3 && g.f.Subs:
			var c []gvar
			for _, i := range g.varsOf("string", false) {
				if g.sc[i].minLen > 0 {
					c = append(c, g.sc[i])
				}
			}
			if len(c) > 0 {
				v := pick(r, c)
				switch r.n(4) {
				case 0:
					return fmt.Sprintf("%s[%s]", v.name, g.index(v.minLen, d))
				case 1:
					a := r.n(v.minLen + 1)
					return fmt.Sprintf("%s[%d:%d]", v.name, a, a+r.n(v.minLen-a+1))
				case 2:
					return fmt.Sprintf("%s[:%d]", v.name, r.n(v.minLen+1))
				default:
					return fmt.Sprintf("%s[%d:]", v.name, r.n(v.minLen+1))
				}
			}
		case k == 4 && g.f.Slice:
			var c []gvar
			for _, i := range g.varsOf("[]string", false) {
				if g.sc[i].minLen > 0 {
					c = append(c, g.sc[i])
				}
			}
			if len(c) > 0 {
				v := pick(r, c)
				return fmt.Sprintf("%s[%s]", v.name, g.index(v.minLen, d))
			}
		}
		return g.expr("string", d-1)
	}
	if strings.HasPrefix(t, "[]") {
		if len(vs) > 0 && r.p(2, 3) {
			return g.sc[pick(r, vs)].name
		}
		n := 1 + r.n(3)
		var es []string
		for i := 0; i < n; i++ {
			es = append(es, g.expr(t[2:], d-1))
		}
		return t + "{" + strings.Join(es, ", ") + "}"
	}
	return g.expr(t, 0)
}

// index gives an index expression with a value below n.
func (g *gen) index(n int, d int) string {
	if g.r.p(1, 3) {
		for _, v := range g.sc {
			if v.t == "int" && v.minLen == -n-1 {
				return v.name
			}
		}
	}
	k := g.r.n(n)
	if g.r.p(1, 4) && k > 0 {
		return fmt.Sprintf("%d + 1", k-1)
	}
	return fmt.Sprint(k)
}

// operand is an expression that can stand next to an operator without changing the grouping.
func (g *gen) operand(t string, d int) string {
	s := g.expr(t, d)
	if strings.ContainsAny(s, " ") && g.r.p(3, 5) {
		return "(" + s + ")"
	}
	if t != "int" && strings.Contains(s, " ") {
		return "(" + s + ")"
	}
	// comparisons and logic inside int operands cannot occur
	return s
}

func (g *gen) atomOf(t string, d int) string {
	s := g.expr(t, d)
	if strings.Contains(s, " ") || strings.HasPrefix(s, "!") {
		return "(" + s + ")"
	}
	return s
}

func (g *gen) known(t, e string) int {
	if t == "string" && strings.HasPrefix(e, `"`) && strings.HasSuffix(e, `"`) && !strings.Contains(e, `\`) && strings.Count(e, `"`) == 2 && !strings.Contains(e, "\x01") && !strings.Contains(e, `\x01`) {
		return len(e) - 2
	}
	if strings.HasPrefix(t, "[]") {
		if strings.HasPrefix(e, "[]") {
			if strings.HasSuffix(e, "{}") {
				return 0
			}
			return 1
		}
		for _, v := range g.sc {
			if v.name == e {
				return v.minLen
			}
		}
		if !strings.ContainsAny(e, "(") {
			return 0
		}
		return 0
	}
	return 0
}

func (g *gen) define(n, t string, ro bool, minLen int) {
	g.sc = append(g.sc, gvar{name: n, t: t, ro: ro, minLen: minLen, global: g.fn == nil && g.ind == 0})
}

func (g *gen) block(f func()) {
	n := len(g.sc)
	g.ind++
	f()
	g.ind--
	g.sc = g.sc[:n]
}

func (g *gen) cond() string { return g.expr("bool", 2) }

func (g *gen) show() {
	var ps []string
	for k := 0; k < 1+g.r.n(3); k++ {
		t := g.scalar()
		ps = append(ps, g.expr(t, 1))
	}
	g.line("print(%s)", strings.Join(ps, ", "))
}

func (g *gen) stmts(n int) {
	for i := 0; i < n && g.left > 0; i++ {
		g.left--
		g.stmt()
	}
	g.show()
}

func (g *gen) stmt() {
	r := g.r
	switch k := r.n(22); {
	case k < 4: // definition
		t := pick(r, g.types())
		n := g.fresh()
		e := g.expr(t, 2)
		switch r.n(5) {
		case 0:
			g.line("var %s %s = %s", n, t, e)
		case 1:
			g.line("var %s %s", n, t)
			g.define(n, t, t == "string" && false, 0)
			return
		default:
			g.line("%s := %s", n, e)
		}
		kl := g.known(t, e)
		g.define(n, t, t == "string" && kl > 0, kl)
	case k < 7: // assignment
		t := pick(r, g.types())
		vs := g.varsOf(t, true)
		if len(vs) == 0 {
			g.show()
			return
		}
		v := g.sc[pick(r, vs)]
		if !g.f.Globalw && v.global && g.fn != nil {
			g.show()
			return
		}
		if strings.HasPrefix(t, "[]") {
			if v.minLen > 0 {
				// keep the known length: only assign from slices at least as long
				g.line("%s[%d] = %s", v.name, r.n(4), g.expr(t[2:], 2))
				return
			}
			g.line("%s = %s", v.name, g.expr(t, 2))
			return
		}
		if t == "string" && v.minLen > 0 {
			g.show()
			return
		}
		g.line("%s = %s", v.name, g.expr(t, 2))
	case k < 9: // compound
		vs := g.varsOf("int", true)
		if len(vs) == 0 {
			g.show()
			return
		}
		v := g.sc[pick(r, vs)]
		if !g.f.Globalw && v.global && g.fn != nil {
			g.show()
			return
		}
		switch r.n(5) {
		case 0:
			g.line("%s++", v.name)
		case 1:
			g.line("%s--", v.name)
		case 2:
			g.line("%s %s %d", v.name, pick(r, []string{"/=", "%="}), pick(r, []int{2, 3, 5}))
		default:
			g.line("%s %s %s", v.name, pick(r, []string{"+=", "-=", "*="}), g.expr("int", 2))
		}
	case k < 12: // if
		g.line("if %s {", g.cond())
		g.body()
		for i := 0; i < r.n(3); i++ {
			g.line("} else if %s {", g.cond())
			g.body()
		}
		if r.p(1, 2) {
			g.line("} else {")
			g.body()
		}
		g.line("}")
	case k < 14: // switch
		if !g.f.Switch {
			g.show()
			return
		}
		t := g.scalar()
		head := ""
		switch r.n(3) {
		case 0:
			t = "bool"
		case 1:
			if t == "bool" {
				head = " true"
			} else {
				head = " " + g.atomOf(t, 1)
			}
		default:
			head = " " + g.atomOf(t, 1)
		}
		g.line("switch%s {", head)
		for i := 0; i < 1+r.n(3); i++ {
			g.line("case %s:", g.atomOf(t, 1))
			g.body()
		}
		if r.p(1, 2) {
			g.line("default:")
			g.body()
		}
		g.line("}")
	case k < 17: // loops
		if !g.f.Loops || g.loop >= 2 {
			g.show()
			return
		}
		g.loopStmt()
	case k == 17 && g.f.Slice:
		vs := append(g.varsOf("[]int", false), g.varsOf("[]string", false)...)
		if len(vs) == 0 {
			g.show()
			return
		}
		v := g.sc[pick(r, vs)]
		if r.p(1, 4) {
			ws := g.varsOf(v.t, false)
			w := g.sc[pick(r, ws)]
			g.line("print(copy(%s, %s))", w.name, v.name)
			return
		}
		g.line("%s[%d] = %s", v.name, r.n(4), g.expr(v.t[2:], 2))
	case k == 18 && g.f.Multi:
		// multi-value definition from a call
		var c []gfunc
		for _, f := range g.funcs {
			if len(f.ret) > 1 && (g.fn == nil || f.name != g.fn.name) {
				c = append(c, f)
			}
		}
		if len(c) > 0 {
			f := pick(r, c)
			var ns []string
			for range f.ret {
				n := g.fresh()
				for contains(ns, n) {
					g.ctr++
					n = fmt.Sprintf("w%d", g.ctr)
				}
				ns = append(ns, n)
			}
			g.line("%s := %s", strings.Join(ns, ", "), g.callText(f, 2))
			for i, n := range ns {
				g.define(n, f.ret[i], false, 0)
			}
			return
		}
		g.show()
	case k == 19 && len(g.funcs) > 0:
		f := pick(r, g.funcs)
		if g.fn != nil && f.name == g.fn.name {
			g.show()
			return
		}
		if len(f.ret) == 1 && !strings.HasPrefix(f.ret[0], "[]") {
			g.line("print(%s)", g.callText(f, 2))
		} else {
			g.line("%s", g.callText(f, 2))
		}
	case k == 20 && g.f.Panic && r.p(1, 3):
		g.line("if %s {", g.cond())
		g.block(func() { g.line(`panic("p%d")`, r.n(3)) })
		g.line("}")
	case k == 21 && g.loop > 0:
		g.line("if %s {", g.cond())
		g.block(func() { g.line("%s", pick(r, []string{"break", "continue"})) })
		g.line("}")
	default:
		g.show()
	}
}

func contains(xs []string, x string) bool {
	for _, y := range xs {
		if x == y {
			return true
		}
	}
	return false
}

func (g *gen) body() {
	g.block(func() {
		n := 1
		if g.left > 2 {
			n += g.r.n(2)
		}
		g.stmts(n)
		if g.loop > 0 && g.r.p(1, 6) {
			g.line("%s", pick(g.r, []string{"break", "continue"}))
		} else if g.fn != nil && g.r.p(1, 8) {
			g.ret()
		}
	})
}

func (g *gen) ret() {
	if len(g.fn.ret) == 0 {
		return
	}
	var es []string
	for _, t := range g.fn.ret {
		es = append(es, g.expr(t, 2))
	}
	g.line("return %s", strings.Join(es, ", "))
}

func (g *gen) loopStmt() {
	r := g.r
	n := len(g.sc)
	i := g.fresh()
	k := 1 + r.n(2)
	g.loop++
	defer func() { g.loop--; g.sc = g.sc[:n] }()
	switch r.n(6) {
	case 0, 1:
		g.line("for %s := 0; %s < %d; %s++ {", i, i, k+1, i)
		g.define(i, "int", true, -k-2)
		g.body()
		g.line("}")
	case 2:
		g.line("%s := 0", i)
		n = len(g.sc)
		g.define(i, "int", true, 0)
		n++
		g.line("for %s < %d {", i, k+1)
		g.ind++
		g.line("%s++", i)
		g.ind--
		g.body()
		g.line("}")
	case 3:
		g.line("%s := 0", i)
		g.define(i, "int", true, 0)
		n++
		g.line("for {")
		g.ind++
		g.line("%s++", i)
		g.line("if %s > %d {", i, k)
		g.line("    break")
		g.line("}")
		g.ind--
		g.body()
		g.line("}")
	case 4:
		if g.f.Subs {
			v := ""
			for _, x := range g.sc {
				if x.t == "string" && x.minLen > 0 && x.minLen < 6 {
					v = x.name
				}
			}
			if v != "" {
				j := g.fresh()
				for j == i {
					g.ctr++
					j = fmt.Sprintf("r%d", g.ctr)
				}
				g.line("for %s, %s := range %s {", i, j, v)
				g.define(i, "int", true, 0)
				g.define(j, "string", true, 0)
				g.body()
				g.line("}")
				return
			}
		}
		fallthrough
	case 5:
		if g.f.Slice {
			vs := append(g.varsOf("[]int", false), g.varsOf("[]string", false)...)
			if len(vs) > 0 {
				v := g.sc[pick(r, vs)]
				j := g.fresh()
				for j == i {
					g.ctr++
					j = fmt.Sprintf("r%d", g.ctr)
				}
				g.line("for %s, %s := range %s {", i, j, v.name)
				g.define(i, "int", true, 0)
				g.define(j, v.t[2:], true, 0)
				g.body()
				g.line("}")
				return
			}
		}
		g.line("for %s := %d; %s > 0; %s-- {", i, k, i, i)
		g.define(i, "int", true, 0)
		g.body()
		g.line("}")
	}
}

func (g *gen) function() {
	r := g.r
	f := gfunc{name: "F" + fmt.Sprint(len(g.funcs))}
	if r.p(1, 2) {
		f.name = "f" + fmt.Sprint(len(g.funcs))
	}
	n := len(g.sc)
	var ps []string
	for i := 0; i < r.n(4); i++ {
		t := pick(r, g.types())
		pn := g.fresh()
		for contains(ps, pn) {
			g.ctr++
			pn = fmt.Sprintf("p%d", g.ctr)
		}
		ps = append(ps, pn)
		f.params = append(f.params, t)
	}
	nr := r.n(3)
	if !g.f.Multi && nr > 1 {
		nr = 1
	}
	for i := 0; i < nr; i++ {
		f.ret = append(f.ret, pick(r, g.types()))
	}
	var pd []string
	for i, p := range ps {
		pd = append(pd, p+" "+f.params[i])
	}
	rt := ""
	switch len(f.ret) {
	case 0:
	case 1:
		rt = " " + f.ret[0]
	default:
		rt = " (" + strings.Join(f.ret, ", ") + ")"
	}
	g.line("func %s(%s)%s {", f.name, strings.Join(pd, ", "), rt)
	g.ind++
	g.fn = &f
	for i, p := range ps {
		g.define(p, f.params[i], false, 0)
	}
	if g.f.Side {
		g.line(`print("in %s")`, f.name)
	}
	g.left += 2
	g.stmts(1 + r.n(2))
	g.ret()
	g.fn = nil
	g.ind--
	g.line("}")
	g.sc = g.sc[:n]
	g.funcs = append(g.funcs, f)
}

// genProgram gives program k of a family.
func genProgram(seed uint64, f gfeat) string {
	g := &gen{r: &rng{seed * 0x2545F4914F6CDD1D}, f: f}
	g.left = f.Size
	g.sym = f.Sym
	if f.Globals {
		for i := 0; i < 1+g.r.n(3); i++ {
			t := pick(g.r, g.types())
			n := g.fresh()
			e := g.expr(t, 1)
			g.line("%s := %s", n, e)
			kl := g.known(t, e)
			g.define(n, t, t == "string" && kl > 0, kl)
		}
	}
	if f.Func {
		for i := 0; i < 1+g.r.n(3); i++ {
			g.function()
			if g.r.p(1, 3) && f.Globals {
				t := pick(g.r, g.types())
				n := g.fresh()
				e := g.expr(t, 1)
				g.line("%s := %s", n, e)
				g.define(n, t, t == "string" && g.known(t, e) > 0, g.known(t, e))
			}
		}
	}
	g.left = max(g.left, f.Size)
	g.stmts(f.Size)
	return g.o.String()
}

// draw gives the number of the i-th generated program; VERIF_SEED chooses another range of programs.
func (c *Ctx) draw(i int) uint64 {
	s := uint64(c.seed)
	if s > 0 {
		s--
	}
	return uint64(i) + s*1_000_003
}
