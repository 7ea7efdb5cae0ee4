package main

import (
	"fmt"
	"strings"
)

// ---------------------------------------------------------------- C06: typing

// judged queues one program whose acceptance the reference typing rules decide (or which must at least
// be treated alike for both targets).
func (c *Ctx) judged(key, src string, p *Project) {
	if c.collect != nil {
		if p == nil {
			p = oneFile(src)
		}
		c.collect(key, p)
		return
	}
	c.do(key, func() { c.judgedNow(key, src, p) })
}

func (c *Ctx) judgedNow(key, src string, p *Project) {
	if p == nil {
		p = oneFile(src)
	}
	pr := prepare(p)
	want, why := refJudge(pr)
	c.count("judged "+want, 1)
	c.obligation(1)
	rb := c.a.transpileOne(pr, "bash")
	c.analysed(rb.Funcs)
	rc := c.a.transpileOne(pr, "batch")
	c.analysed(rc.Funcs)
	for i, r := range []*CompResult{rb, rc} {
		t := bothTargets[i]
		switch r.Kind {
		case "script", "error":
		case "panic":
			if want == "open" {
				continue // C13
			}
			c.violate(key, t+": neither a script nor an error: "+kindText(r), c.progDetail(src, p, r, nil, pr))
			return
		default:
			c.violate(key, t+": "+kindText(r), c.progDetail(src, p, r, nil, pr))
			return
		}
		switch {
		case want == "accept" && r.Kind == "error":
			c.violate(key, t+": well-formed program rejected", c.progDetail(src, p, r, nil, pr)+"\n"+r.Err)
			return
		case want == "reject" && r.Kind == "script":
			c.violate(key, t+": program is translated although: "+stripPos(why), c.progDetail(src, p, r, nil, pr))
			return
		}
	}
	if rb.Kind != rc.Kind && rb.Kind != "panic" && rc.Kind != "panic" {
		c.violate(key, fmt.Sprintf("the targets disagree: bash %s, batch %s", kindText(rb), kindText(rc)), c.progDetail(src, p, rb, nil, pr))
	}
}

// judgedLenient leaves the known restriction on ordering strings out of the verdict; it has programs of its own.
func (c *Ctx) judgedLenient(key, src string) {
	p := oneFile(src)
	p.Lenient = true
	c.judged(key, src, p)
}

// withTypePre puts the declarations that src uses in front of it.
func withTypePre(src string) string {
	words := map[string]bool{}
	for _, w := range strings.FieldsFunc(src, func(r rune) bool {
		return !(r == '_' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r >= '0' && r <= '9')
	}) {
		words[w] = true
	}
	var b strings.Builder
	for _, d := range typeDecls {
		if words[d.key] {
			b.WriteString(d.src)
		}
	}
	return b.String() + src
}

var typeDecls = func() (r []schema) {
	for _, l := range strings.SplitAfter(typePre, "\n") {
		w := strings.FieldsFunc(l, func(r rune) bool { return r == ' ' || r == '(' })
		switch {
		case len(w) == 0:
		case w[0] == "func" || w[0] == "var":
			r = append(r, schema{w[1], l})
		case l[0] == ' ' || l[0] == '}':
			r[len(r)-1].src += l
		default:
			r = append(r, schema{w[0], l})
		}
	}
	return r
}()

func stripPos(s string) string {
	if i := strings.LastIndex(s, " at row "); i >= 0 {
		s = s[:i]
	}
	return s
}

const typePre = `gi := 1
gj := 2
gb := true
gc := false
gs := "s"
gt := "t"
ai := []int{1, 2}
bi := []int{3}
ab := []bool{true}
as := []string{"x"}
bs := []string{"y", "z"}
var ge error
func fi() int {
 return 1
}
func fb() bool {
 return true
}
func fs() string {
 return "f"
}
func fai() []int {
 return []int{1}
}
func fas() []string {
 return []string{"f"}
}
func fab() []bool {
 return []bool{true}
}
func fv() {
 print("fv")
}
func f2() (int, int) {
 return 1, 2
}
func f2s() (string, int) {
 return "a", 2
}
func f3() (int, string, bool) {
 return 1, "a", true
}
func p1(a int) int {
 return a
}
func p1s(a string) string {
 return a
}
func p1b(a bool) bool {
 return a
}
func pa(a []int) []int {
 return a
}
func pas(a []string) []string {
 return a
}
func pab(a []bool) []bool {
 return a
}
func p2(a int, b string) int {
 return a
}
func p3(a string, b bool, c []int) (int, string) {
 return 1, a
}
func pe(a error) error {
 return a
}
func p3i(a int, b int, c int) int {
 return a
}
func p4i(a int, b int, c int, d int) int {
 return a
}
func p5m(a int, b string, c bool, d int, e string) int {
 return a
}
func f1() (int) {
 return 1
}
`

// expressions of every type and form
func typeExprs(full bool) []schema {
	r := []schema{
		{"int.lit", "7"}, {"int.var", "gi"}, {"int.call", "fi()"}, {"int.bin", "gi + 1"}, {"int.group", "(gi)"}, {"int.idx", "ai[0]"}, {"int.len", "len(gs)"},
		{"bool.lit", "true"}, {"bool.var", "gb"}, {"bool.call", "fb()"}, {"bool.cmp", "gi == 1"}, {"bool.not", "!gb"}, {"bool.and", "gb && gc"}, {"bool.group", "(gb || gc)"}, {"bool.idx", "ab[0]"}, {"bool.exists", "exists(\"x\")"},
		{"str.lit", `"q"`}, {"str.var", "gs"}, {"str.call", "fs()"}, {"str.bin", `gs + "x"`}, {"str.group", "(gs)"}, {"str.idx", "as[0]"}, {"str.char", "gs[0]"}, {"str.sub", "gs[0:1]"}, {"str.itoa", "itoa(1)"}, {"err.var", "ge"}, {"nil", "nil"},
		{"ai.var", "bi"}, {"ai.lit", "[]int{1}"}, {"ai.call", "fai()"}, {"ab.var", "ab"}, {"ab.lit", "[]bool{}"}, {"as.var", "bs"}, {"as.lit", `[]string{"l"}`}, {"as.call", "fas()"},
		{"void.call", "fv()"}, {"multi.f2", "f2()"}, {"multi.f3", "f3()"}, {"multi.app", "@K_p()"},
	}
	if full {
		r = append(r, []schema{
			{"int.mul", "gi * gj - 3"}, {"int.neg", "-5"}, {"int.call1", "p1(2)"}, {"int.copy", "copy(ai, bi)"}, {"int.lens", "len(ai)"},
			{"bool.seq", `gs == gt`}, {"bool.sne", `gs != "x"`}, {"bool.lt", "gi < 2"}, {"bool.deep", "gb && (gi == 1 || !gc)"}, {"bool.nilcmp", "ge != nil"}, {"bool.call1", "p1b(gc)"},
			{"str.raw", "`r`"}, {"str.cat3", `gs + gt + "x"`}, {"str.read", "read(gs)"}, {"str.input", "input()"}, {"str.call1", "p1s(gs)"}, {"str.to", "gs[:1]"}, {"str.from", "gs[1:]"},
			{"ai.call1", "pa(ai)"}, {"as.call1", "pas(as)"}, {"ab.call", "fab()"}, {"group.call", "(fi())"}, {"group.void", "(fv())"}, {"group.multi", "(f2())"}, {"group.ai", "(ai)"},
			{"void.print", "print(1)"}, {"void.write", `write("a", "b")`}, {"void.panic", `panic("x")`}, {"multi.f2s", "f2s()"}, {"int.bad", `p1("x")`}, {"int.bad2", "p1()"}, {"str.bad", "itoa(gs)"}, {"bool.bad", "gi && gb"}, {"int.badidx", `ai["x"]`}, {"int.badlen", "len(1)"},
		}...)
	}
	return r
}

// positions: %E is the expression in question.
func typePositions() []schema {
	var r []schema
	add := func(k, s string) { r = append(r, schema{k, s}) }
	for _, t := range []string{"int", "bool", "string", "error", "[]int", "[]bool", "[]string"} {
		add("var."+t, "var x "+t+" = %E\n")
		add("var2a."+t, "var x, y "+t+" = %E, %E\n")
	}
	add("var2b", "var x, y int = 1, %E\n")
	add("var2m", "var x, y int = %E\n")
	add("var3m", "var x, y, z int = %E\n")
	add("def", "x := %E\n")
	add("def2", "x, y := %E, 1\n")
	add("def2r", "x, y := \"a\", %E\n")
	add("def2m", "x, y := %E\n")
	add("def3m", "x, y, z := %E\n")
	add("redef.i", "gi, x := %E, 1\n")
	add("redef.s", "x, gs := 1, %E\n")
	add("redef.m", "gi, x := %E\n")
	for _, v := range []string{"gi", "gb", "gs", "ge", "ai", "ab", "as"} {
		add("set."+v, v+" = %E\n")
		add("setl."+v, "gj, "+v+" = 1, %E\n")
		add("setf."+v, v+", gj = %E, 1\n")
	}
	add("set2m", "gi, gj = %E\n")
	add("set2ms", "gs, gi = %E\n")
	add("set3m", "gi, gs, gb = %E\n")
	add("swap", "gi, gs = gs, %E\n")
	for _, v := range []string{"gi", "gb", "gs", "ai"} {
		for _, o := range []string{"+=", "-=", "*=", "/=", "%="} {
			add("comp."+v+o, v+" "+o+" %E\n")
		}
		for _, o := range []string{"++", "--"} {
			add("inc."+v+o, v+o+"\n")
		}
	}
	for _, o := range []string{"+", "-", "*", "/", "%", "==", "!=", "<", "<=", ">", ">=", "&&", "||"} {
		for _, v := range []string{"gi", "gb", "gs", "ai", "as"} {
			add("opL."+o+v, "x := %E "+o+" "+v+"\n")
			add("opR."+o+v, "x := "+v+" "+o+" %E\n")
		}
		add("opG."+o, "x := (%E) "+o+" (gi)\n")
		add("opC."+o, "if gi "+o+" %E {\n print(1)\n}\n")
	}
	add("not", "x := !%E\n")
	add("notg", "x := !(%E)\n")
	add("group", "x := (%E)\nprint(x == 1)\n")
	add("and3", "x := gb && gc && %E\n")
	add("or3", "x := gb || %E || gc\n")
	add("andcmp", "x := gi == 1 && %E\n")
	add("andor", "x := %E && gb || gc\n")
	add("orand", "x := gb || gc && %E\n")
	add("chain1", "x := %E == gi == gb\n")
	add("chain2", "x := gb == %E == gc\n")
	add("chain3", "x := gi < gj == %E\n")
	add("add3", "x := gi + gj + %E\n")
	add("addmul", "x := gi + gj * %E\n")
	add("cat3", "x := gs + gt + %E\n")
	for _, v := range []string{"gi", "gb", "gs", "ai", "ab", "as"} {
		add("base."+v, "x := "+v+"[%E]\n")
		add("baseset."+v, v+"[%E] = %E\n")
		add("elem."+v, v+"[0] = %E\n")
		add("lo."+v, "x := "+v+"[%E:]\n")
		add("hi."+v, "x := "+v+"[:%E]\n")
		add("lohi."+v, "x := "+v+"[%E:gi]\n")
		add("hilo."+v, "x := "+v+"[gi:%E]\n")
		add("range."+v, "for i, v := range "+v+" {\n x := %E\n v = x\n}\n")
	}
	add("setidx", "ai[%E] = 1\n")
	add("nested", "x := ai[ai[%E]]\n")
	for _, t := range []string{"int", "bool", "string", "error"} {
		add("lit1."+t, "x := []"+t+"{%E}\n")
		add("lit2."+t, "x := []"+t+"{%E, %E}\n")
	}
	add("lit3", "x := []int{1, %E, 2}\n")
	for _, f := range []string{"p1", "p1s", "p1b", "pa", "pas", "pab", "pe"} {
		add("arg."+f, f+"(%E)\n")
		add("argx."+f, "x := "+f+"(%E)\n")
	}
	add("arg2a", "p2(%E, \"a\")\n")
	add("arg2b", "p2(1, %E)\n")
	add("arg3a", "x, y := p3(%E, true, ai)\n")
	add("arg3b", "p3(gs, %E, ai)\n")
	add("arg3c", "p3(gs, gb, %E)\n")
	add("ar.0", "x := p1()\nprint(%E)\n")
	add("ar.2", "p1(1, %E)\n")
	add("ar.few", "p2(%E)\n")
	add("ar.many", "p2(1, \"a\", %E)\n")
	add("ar.void", "fv(%E)\n")
	add("ar.none", "fi(%E)\n")
	add("argnest", "p1(p1(p1(%E)))\n")
	add("argop", "p1(1 + %E)\n")
	for _, t := range []string{"int", "bool", "string", "error", "[]int", "[]bool", "[]string"} {
		add("ret."+t, "func k() "+t+" {\n return %E\n}\nk()\n")
		add("retn."+t, "func k() "+t+" {\n if gb {\n  for i := 0; i < 2; i++ {\n   switch gi {\n   case 1:\n    return %E\n   }\n  }\n }\n return "+zeroLit(t)+"\n}\nk()\n")
	}
	add("retif", "func k() int {\n if gb {\n  return %E\n } else {\n  return 1\n }\n return 2\n}\nk()\n")
	add("retelse", "func k() int {\n if gb {\n  return 1\n } else if gc {\n  return %E\n } else {\n  return 3\n }\n return 2\n}\nk()\n")
	add("retelse2", "func k() string {\n if gb {\n  return \"a\"\n } else {\n  return %E\n }\n return \"b\"\n}\nk()\n")
	add("retfor", "func k() int {\n for gb {\n  return %E\n }\n return 2\n}\nk()\n")
	add("retrange", "func k() bool {\n for i, v := range ai {\n  if v == i {\n   return %E\n  }\n }\n return true\n}\nk()\n")
	add("retdef", "func k() int {\n switch gi {\n case 1:\n  return 1\n default:\n  return %E\n }\n return 2\n}\nk()\n")
	add("ret2a", "func k() (int, string) {\n return %E, \"a\"\n}\nk()\n")
	add("ret2b", "func k() (int, string) {\n return 1, %E\n}\nk()\n")
	add("ret2n", "func k() (int, string) {\n if gb {\n  return 1, %E\n }\n return 2, \"b\"\n}\nk()\n")
	add("ret2few", "func k() (int, int) {\n return %E\n}\nk()\n")
	add("ret2fewn", "func k() (int, int) {\n if gb {\n  return %E\n }\n return 1, 2\n}\nk()\n")
	add("ret1many", "func k() int {\n return 1, %E\n}\nk()\n")
	add("ret1manyn", "func k() int {\n for gb {\n  return 1, %E\n }\n return 3\n}\nk()\n")
	add("retvoid", "func k() {\n return %E\n}\nk()\n")
	add("retvoidn", "func k() {\n if gb {\n  return %E\n }\n print(1)\n}\nk()\n")
	add("retvoidfor", "func k() {\n for i, v := range ai {\n  return %E\n }\n}\nk()\n")
	add("retvoidsw", "func k() {\n switch gi {\n case 1:\n  return %E\n default:\n  print(1)\n }\n}\nk()\n")
	add("if", "if %E {\n print(1)\n}\n")
	add("elseif", "if gb {\n print(1)\n} else if %E {\n print(2)\n}\n")
	add("elseif2", "if gb {\n print(1)\n} else if gc {\n print(2)\n} else if %E {\n print(3)\n} else {\n print(4)\n}\n")
	add("for", "for %E {\n break\n}\n")
	add("forcond", "for i := 0; %E; i++ {\n break\n}\n")
	add("forinit", "for i := %E; i < 3; i++ {\n print(i)\n}\n")
	add("forpost", "for i := 0; i < 3; i += %E {\n print(i)\n}\n")
	add("forset", "for gi = %E; gb; gi = 2 {\n break\n}\n")
	add("forpost2", "for gi = 1; gb; gi = %E {\n break\n}\n")
	add("rangeover", "for i, v := range %E {\n print(i)\n}\n")
	add("rangeidx", "for i, v := range as {\n x := i + 1\n i = %E\n}\n")
	add("switch.i", "switch %E {\ncase 1:\n print(1)\n}\n")
	add("switch.b", "switch %E {\ncase true:\n print(1)\n}\n")
	add("switch.s", "switch %E {\ncase \"a\":\n print(1)\n}\n")
	add("switch.ai", "switch %E {\ncase ai:\n print(1)\n}\n")
	add("switch.def", "switch %E {\ndefault:\n print(1)\n}\n")
	for _, v := range []string{"gi", "gb", "gs", "ge", "true"} {
		add("case."+v, "switch "+v+" {\ncase %E:\n print(1)\n}\n")
	}
	add("case2", "switch gi {\ncase 1:\n print(1)\ncase %E:\n print(2)\ndefault:\n print(3)\n}\n")
	add("casebare", "switch {\ncase %E:\n print(1)\n}\n")
	add("casebare2", "switch {\ncase gb:\n print(1)\ncase %E:\n print(2)\n}\n")
	for _, b := range []string{"len", "itoa", "read", "exists", "input", "panic", "print"} {
		add("b."+b, b+"(%E)\n")
		add("b2."+b, b+"(%E, %E)\n")
		if b != "panic" && b != "print" {
			add("bx."+b, "x := "+b+"(%E)\n")
			add("bx2."+b, "x := "+b+"(\"a\", %E)\n")
		} else {
			add("bx."+b, "x := "+b+"(\"a\")\nprint(%E)\n")
		}
	}
	add("b3.print", "print(1, %E, \"a\")\n")
	add("b.copy0", "copy(ai, %E)\n")
	add("b.copy1", "copy(as, %E)\n")
	add("b.copy2", "x := copy(%E, bi)\n")
	add("b.copy3", "copy(%E)\n")
	add("b.copy4", "copy(ai, bi, %E)\n")
	add("b.write0", "write(%E, \"c\")\n")
	add("b.write1", "write(\"p\", %E)\n")
	add("b.write2", "write(\"p\", \"c\", %E)\n")
	add("b.write3", "write(\"p\", \"c\", true, %E)\n")
	add("b.write4", "write(%E)\n")
	add("b.write5", "x := write(\"p\", %E)\n")
	add("b.write6", "write(%E, \"c\", true)\n")
	add("b.write7", "write(\"p\", %E, false)\n")
	add("app", "@K_p(%E)\n")
	add("app2", "x, y, z := @K_p(\"a\", %E) | @K_q(%E)\n")
	add("appset", "gs, gt, gi = @K_p(%E)\n")
	add("apptyp", "gi, gt, gi = @K_p(%E)\n")
	add("apptyp2", "var x, y, z string = @K_p(%E)\n")
	add("appuse", "x, y, z := @K_p(\"a\")\nx = %E\n")
	add("appuse2", "x, y, z := @K_p(\"a\")\nz = %E\n")
	// calls with several values next to others
	for _, m := range []string{"f2()", "f3()", "f1()", "fi()", "p3(gs, gb, ai)", "@K_p()", "f2s()"} {
		for _, f := range []string{"p1", "p3i", "p4i", "p5m", "p2", "p3"} {
			for _, a := range []string{m, m + ", 1", "1, " + m, m + ", " + m, m + ", gi, gj", "gi, " + m + ", gj", m + ", \"a\"", m + ", 1, \"a\"", "gi, gs, " + m, "gi, gj, " + m, m + ", " + m + ", " + m} {
				add("mix."+f+"("+a+")", f+"("+a+")\n")
				add("mixx."+f+"("+a+")", "x := "+f+"("+a+")\nprint(x)\n")
			}
		}
		for _, a := range []string{m, m + ", 1", "1, " + m, m + ", " + m} {
			for n, l := range []string{"x", "x, y", "x, y, z", "x, y, z, w"} {
				add(fmt.Sprintf("mixdef.%d(%s)", n, a), l+" := "+a+"\n")
				add(fmt.Sprintf("mixvar.%d(%s)", n, a), "var "+l+" int = "+a+"\n")
				add(fmt.Sprintf("mixset.%d(%s)", n, a), "var "+l+" int\n"+l+" = "+a+"\n")
			}
			for _, r := range []string{"int", "(int, int)", "(int, int, int)", "(int, string, bool)", "(int, int, int, int)"} {
				add("mixret."+r+"("+a+")", "func k() "+r+" {\n return "+a+"\n}\nk()\n")
			}
			add("mixlit("+a+")", "x := []int{"+a+"}\n")
			add("mixprint("+a+")", "print("+a+")\n")
		}
	}
	// arity of the builtins
	right := map[string][]string{"len": {"gs", "gt", "ai"}, "itoa": {"gi", "gj", "1"}, "read": {"gs", "gt", "\"a\""}, "exists": {"gs", "gt", "\"a\""}, "input": {"gs", "gt", "\"a\""}, "panic": {"gs", "gt", "\"a\""}, "copy": {"ai", "bi", "ai", "bi"}, "write": {"gs", "gt", "gb", "gc", "gb"}}
	for _, b := range sortedKeys(map[string]string{"len": "", "itoa": "", "read": "", "exists": "", "input": "", "panic": "", "copy": "", "write": ""}) {
		for n := 0; n <= len(right[b]); n++ {
			a := strings.Join(right[b][:n], ", ")
			add(fmt.Sprintf("arity.%s/%d", b, n), b+"("+a+")\n")
			add(fmt.Sprintf("arityx.%s/%d", b, n), "x := "+b+"("+a+")\nprint(x)\n")
			add(fmt.Sprintf("aritya.%s/%d", b, n), "print(1, "+b+"("+a+"))\n")
		}
	}
	add("stmt", "%E\n")
	add("vtype", "x := %E\nx = 1\n")
	add("vtypes", "x := %E\nx = \"a\"\n")
	add("vtypeb", "x := %E\nx = true\n")
	add("vtypea", "x := %E\nx[0] = 1\n")
	add("vtypelen", "x := %E\nprint(len(x))\n")
	return r
}

func zeroLit(t string) string {
	switch t {
	case "int":
		return "0"
	case "bool":
		return "false"
	case "string", "error":
		return `""`
	}
	return t + "{}"
}

var typeCtx = []schema{
	{"top", "%S"},
	{"func", "func w(a int, s string) int {\n%S return a\n}\nprint(w(1, \"x\"))\n"},
	{"deep", "func w() {\n for k, e := range as {\n  if gb {\n   print(1)\n  } else if gc {\n   switch gi {\n   case 5:\n    print(1)\n   default:\n    for gj < 3 {\n%S    }\n   }\n  }\n }\n}\nw()\n"},
	{"else", "if gb {\n print(1)\n} else {\n%S}\n"},
	{"case", "switch gi {\ncase 1:\n%S}\n"},
	{"loop", "for q := 0; q < 2; q++ {\n%S}\n"},
}

func init() {
	checks["C06"] = &propCheck{level: "other",
		rule: "every operand, argument, assignment, return, condition, index, element and builtin position x every form of expression of every type x block context is analysed by abstract interpretation of the compiler's SSA for both targets; an independent type checker for the language decides which must be translated and which must be rejected, and the two targets must agree",
		run: func(c *Ctx) {
			for _, o := range []string{"<", "<=", ">", ">="} {
				c.judged("strorder/"+o, "a := \"x\"\nb := \"y\"\nprint(a "+o+" b)\n", nil)
			}
			c.scaleTypes()
			ex := typeExprs(!c.quick())
			for _, p := range typePositions() {
				for _, e := range ex {
					if !strings.Contains(p.src, "%E") && e.key != ex[0].key {
						continue
					}
					s := strings.ReplaceAll(p.src, "%E", e.src)
					cs := typeCtx
					if strings.HasPrefix(p.key, "ret") {
						cs = cs[:1]
					} else if c.quick() {
						cs = cs[:2]
					}
					for _, cx := range cs {
						c.judgedLenient(p.key+"/"+e.key+"/"+cx.key, withTypePre(strings.Replace(cx.src, "%S", s, 1)))
					}
				}
			}
		}}
}
