package main

import (
	"fmt"
	"strings"
)

// wfStmts: one entry per statement or builtin form; they share the globals of wfPre.
var wfStmts = []schema{
	{"def", "x := 1"},
	{"var", "var x string"},
	{"assign", "gi = 2"},
	{"compound", "gi += 3"},
	{"sub", "gi -= 3"},
	{"mod", "gi %= 3"},
	{"concat", "gs += \"y\""},
	{"inc", "gi++"},
	{"dec", "gi--"},
	{"multi", "gi, gs = 3, \"z\""},
	{"print", "print(gi, gs, gb)"},
	{"print0", "print()"},
	{"panic", "panic(\"p\")"},
	{"input", "x := input()"},
	{"inputp", "x := input(\"name\")"},
	{"inputv", "print(input(gs))"},
	{"inputs", "input()"},
	{"read", "x := read(\"f\")"},
	{"readv", "print(read(gs))"},
	{"reads", "read(\"f\")"},
	{"write", "write(\"f\", \"c\")"},
	{"writev", "write(gs, gs, gb)"},
	{"writea", "write(\"f\", gs, true)"},
	{"writef", "write(\"f\", gs, false)"},
	{"exists", "x := exists(\"f\")"},
	{"existss", "exists(gs)"},
	{"existsif", "if exists(gs) {\n print(1)\n}"},
	{"app", "@ls(\"-l\", gs)"},
	{"app0", "@ls()"},
	{"apps", "@\"a b\"(gs)"},
	{"pipe", "@ls() | @sort(\"-r\") | @head(\"-n\", \"1\")"},
	{"appv", "x, y, z := @ls(\"a\")"},
	{"pipev", "x, y, z := @ls(\"a\") | @sort(gs)"},
	{"appa", "gs, gt, gi = @ls(\"a\")"},
	{"copy", "copy(ga, gc)"},
	{"copyv", "x := copy(ga, []int{1})"},
	{"len", "x := len(ga)"},
	{"lens", "x := len(gs)"},
	{"lenc", "print(len(\"abc\"))"},
	{"slice", "x := []string{\"a\", gs}"},
	{"slice0", "x := []bool{}"},
	{"sliceset", "ga[gi] = 5"},
	{"sliceadd", "ga[len(ga)] = gi"},
	{"sliceget", "x := ga[0] + ga[gi]"},
	{"index", "x := gs[0]"},
	{"sub1", "x := gs[1:gi]"},
	{"sub2", "x := gs[:2] + gs[1:] + gs[:]"},
	{"itoa", "x := itoa(gi)"},
	{"call", "fv()"},
	{"callr", "fr(1, \"s\")"},
	{"callv", "x := fr(gi, gs)"},
	{"call2", "x, y := f2(ga)"},
	{"callas", "gi, gs = f2(ga)"},
	{"nestcall", "print(fr(fr(1, gs), itoa(gi)))"},
	{"logic", "x := gb && gi > 1 || !gb"},
	{"cmp", "x := gs == \"a\" || gs != gt"},
	{"arith", "x := (gi + 1) * 2 / 3 % 4 - gi"},
	{"if", "if gb {\n print(1)\n}"},
	{"ifempty", "if gb {\n}"},
	{"ifelse", "if gb {\n gi = 1\n} else {\n gi = 2\n}"},
	{"ifelseempty", "if gb {\n} else {\n}"},
	{"elseif", "if gb {\n gi = 1\n} else if gi == 2 {\n gi = 2\n} else if gi == 3 {\n} else {\n gi = 4\n}"},
	{"elseif0", "if gb {\n} else if !gb {\n}"},
	{"switch", "switch gi {\ncase 1:\n print(1)\ncase 2:\n print(2)\ndefault:\n print(3)\n}"},
	{"switch0", "switch gi {\n}"},
	{"switchd", "switch gi {\ndefault:\n gi = 1\n}"},
	{"switche", "switch gi {\ncase 1:\ncase 2:\ndefault:\n}"},
	{"switchb", "switch {\ncase gb:\n print(1)\ncase gi > 2:\n}"},
	{"for", "for i := 0; i < gi; i++ {\n print(i)\n}"},
	{"forempty", "for i := 0; i < gi; i++ {\n}"},
	{"while", "for gb {\n gb = false\n}"},
	{"forever", "for {\n break\n}"},
	{"forever0", "for {\n}"},
	{"forinc", "for ; gi < 3; gi += 2 {\n continue\n}"},
	{"forinccall", "for i := fr(1, \"a\"); i < fr(2, \"b\"); i = fr(3, \"c\") {\n if gb {\n  continue\n }\n break\n}"},
	{"range", "for i, v := range ga {\n print(i, v)\n}"},
	{"range1", "for i := range gs {\n print(i)\n}"},
	{"rangelit", "for i, v := range []string{\"a\"} {\n if v == \"a\" {\n  continue\n }\n print(i)\n}"},
	{"rangeempty", "for i, v := range ga {\n}"},
	{"value", "gi"},
	{"valueg", "(gi)"},
	{"values", "\"text\""},
	{"valuen", "5"},
	{"valueb", "true"},
	{"valuenil", "nil"},
	{"valueitoa", "itoa(gi)"},
	{"valuecalc", "gi + 1"},
	{"none", ""},
	{"comment", "// nothing"},
}

const wfPre = "gi := 1\ngs := \"s\"\ngt := \"t\"\ngb := true\nga := []int{1, 2}\ngc := []int{3}\nfunc fv() {\n}\nfunc fr(a int, b string) int {\n return a\n}\nfunc f2(a []int) (int, string) {\n return a[0], \"x\"\n}\n"

// wfCtx: %S is replaced by a statement.
var wfCtx = []schema{
	{"top", "%S\n"},
	{"func", "func w() {\n %S\n}\nw()\n"},
	{"funcret", "func w(p int) int {\n %S\n return p\n}\nprint(w(1))\n"},
	{"if", "if gb {\n %S\n}\n"},
	{"else", "if gb {\n print(1)\n} else {\n %S\n}\n"},
	{"elseif", "if gb {\n print(1)\n} else if gi == 1 {\n %S\n} else {\n print(2)\n}\n"},
	{"for", "for ci := 0; ci < 2; ci++ {\n %S\n}\n"},
	{"while", "for gb {\n gb = false\n %S\n}\n"},
	{"range", "for ck, cv := range ga {\n %S\n}\n"},
	{"case", "switch gi {\ncase 1:\n %S\ndefault:\n print(2)\n}\n"},
	{"default", "switch gi {\ncase 1:\n print(1)\ndefault:\n %S\n}\n"},
	{"loopif", "for ci := 0; ci < 2; ci++ {\n if gb {\n  %S\n  continue\n }\n %S2\n break\n}\n"},
	{"nestfor", "for ci := 0; ci < 2; ci++ {\n for cj := 0; cj < 2; cj++ {\n  if cj == 1 {\n   break\n  }\n  %S\n }\n if ci == 1 {\n  continue\n }\n}\n"},
	{"funcloop", "func w() int {\n for ck, cv := range []int{1, 2} {\n  if cv == 1 {\n   %S\n   return ck\n  }\n }\n return 0\n}\nprint(w())\n"},
	{"funcswitch", "func w(p int) string {\n switch p {\n case 1:\n  %S\n  return \"a\"\n default:\n  for {\n   break\n  }\n }\n return \"b\"\n}\nprint(w(gi))\n"},
	{"twofuncs", "func v() {\n %S\n}\nfunc w() {\n v()\n %S2\n}\nw()\n"},
}

func wfFill(ctx, s string) string {
	t := strings.Replace(ctx, "%S2", strings.NewReplacer("x, y, z :=", "x2, y2, z2 :=", "x, y :=", "x2, y2 :=", "x :=", "x2 :=", "var x ", "var x2 ").Replace(s), 1)
	return wfPre + strings.Replace(t, "%S", s, 1)
}

func c16Schemas(pairs bool) []schema {
	var r []schema
	must := map[string]bool{"none": false, "comment": false}
	for _, s := range wfStmts {
		for _, k := range wfCtx {
			p := "must/"
			if _, ok := must[s.key]; ok || strings.HasPrefix(s.key, "value") {
				p = "stmt/" // whether a plain value is a statement is not decided here
			}
			r = append(r, schema{p + k.key + "/" + s.key, wfFill(k.src, s.src)})
		}
	}
	// only the helpers which are used: each form alone without the others
	alone := []string{"print(1)", "s := \"a\"\nx := s[0]", "s := \"a\"\nx := len(s)", "a := []int{}", "a := []int{}\nx := len(a)", "a := []int{1}\na[0] = 2", "a := []int{1}\nx := a[0]",
		"a := []int{1}\ncopy(a, []int{2})", "a := []int{1}\nx := copy(a, a)", "x := read(\"f\")", "write(\"f\", \"g\")", "x := exists(\"f\")", "@ls()", "x, y, z := @ls()", "x := input()", "panic(\"x\")", "x := 1",
		"for i, v := range \"ab\" {\n print(i, v)\n}", "for i, v := range []int{1} {\n print(i, v)\n}", "x := itoa(4)", "func f() {\n}\nf()", "func f() {\n print(1)\n}", "func f() {\n a := []int{1}\n a[1] = 2\n print(len(a), len(\"s\"))\n}\nprint(1)",
		"func f(a int) {\n print(a)\n}\nfunc g() {\n f(1)\n}", "func f(a int) {\n print(a)\n}\nfunc g() {\n f(1)\n}\ng()"}
	for i, s := range alone {
		r = append(r, schema{fmt.Sprintf("must/alone/%d", i), s + "\n"})
		if pairs {
			for j, t := range alone {
				t = strings.NewReplacer("a :=", "b :=", "a[", "b[", "(a", "(b", ", a)", ", b)", "x :=", "k :=", "x, y, z :=", "k, l, m :=", "s :=", "t :=", "s[", "t[", "(s)", "(t)", "func f", "func h", "f(", "h(", "func g", "func m", "g()", "m()").Replace(t)
				r = append(r, schema{fmt.Sprintf("alone2/%d/%d", i, j), s + "\n" + t + "\n"})
			}
		}
	}
	for _, l := range layoutForms() {
		if !strings.Contains(l.src, "import") {
			r = append(r, schema{"forms/" + l.key, l.src})
		}
	}
	return r
}

// c16Chars: every printable character, a line break and a tab inside of a literal, in every kind of place.
func c16Chars() []schema {
	var r []schema
	places := []schema{
		{"print", "print(%L)\n"},
		{"var", "s := %L\nprint(s)\n"},
		{"concat", "s := \"a\" + %L\nprint(s)\n"},
		{"cmp", "s := \"a\"\nif s == %L {\n print(1)\n}\n"},
		{"slice", "a := []string{%L}\na[1] = %L\nprint(a[0])\n"},
		{"arg", "func f(s string) string {\n return %L\n}\nprint(f(%L))\n"},
		{"panic", "panic(%L)\n"},
		{"write", "write(\"f\", %L)\n"},
		{"app", "@p(%L, \"x\")\n"},
		{"block", "b := true\nif b {\n print(%L)\n}\n"},
		{"blockapp", "b := true\nif b {\n @p(%L)\n x, y, z := @p(%L) | @q(%L)\n}\n"},
		{"input", "s := input(%L)\n"},
	}
	for _, p := range places {
		for ch := 0x20; ch < 0x7f; ch++ {
			lit := fmt.Sprintf("%q", "a"+string(rune(ch))+"b")
			r = append(r, schema{fmt.Sprintf("chars/%s/%q", p.key, string(rune(ch))), strings.ReplaceAll(p.src, "%L", lit)})
		}
		for _, ch := range []string{"\\n", "\\t", "é"} {
			r = append(r, schema{fmt.Sprintf("chars/%s/%s", p.key, strings.TrimPrefix(ch, "\\")), strings.ReplaceAll(p.src, "%L", "\"a"+ch+"b\"")})
		}
		r = append(r, schema{"chars/" + p.key + "/empty", strings.ReplaceAll(p.src, "%L", "\"\"")})
	}
	return r
}

func init() {
	checks["C16"] = &propCheck{level: "other",
		rule: "every schema is transpiled by abstract interpretation of the compiler's SSA for both targets; the Bash template must parse (command substitutions included) and the Batch template must have balanced parentheses, unique and defined labels, routines that end and are not entered otherwise, helpers exactly when called, and jumps that stay inside their routine and loop",
		run: func(c *Ctx) {
			for _, s := range c16Schemas(!c.quick()) {
				c.wellFormed(s.key, s.src)
			}
			for _, s := range c16Chars() {
				c.wellFormed(s.key, s.src)
			}
			for _, fam := range [][]schema{c01Schemas(), c02Schemas(), c03Schemas(true), c04Schemas()} {
				for _, s := range fam {
					c.wellFormed("sem/"+s.key, s.src)
				}
			}
			// the programs of other checks
			for _, id := range []string{"C01", "C02", "C03", "C04"} {
				for _, s := range scaleAll(id, !c.quick()) {
					c.wellFormed(s.key, s.src)
				}
			}
			for _, x := range []struct {
				id string
				n  int
			}{{"C06", 2000}, {"C07", 1200}, {"C08", 1500}, {"C09", 3000}, {"C10", 500}, {"C15", 500}, {"C17", 800}, {"C18", 1200}} {
				ps := c.collected(x.id)
				c.count("programs of "+x.id, len(ps))
				var tame []collectedProg
				for _, p := range ps {
					if cmdNeutral(p.p) {
						tame = append(tame, p)
					}
				}
				for _, p := range spread(tame, c.n(x.n, 8*x.n), c.seed) {
					p := p
					c.do(p.key, func() { c.wellFormedNow(p.key, p.p, "") })
				}
			}
			n := c.n(300, 3000)
			for _, id := range []string{"C01", "C02", "C03", "C04"} {
				for i := 1; i <= n; i++ {
					c.wellFormed(fmt.Sprintf("gen%s/%d", id, i), genProgram(c.draw(i)+16161*uint64(id[2]), semFeat(id, i)))
				}
			}
		}}
}
