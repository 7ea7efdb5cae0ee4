package main

import (
	"fmt"
	"strings"
)

// ---------------------------------------------------------------- sizes: every construct that can be repeated, repeated n times

func joinN(n int, sep string, f func(i int) string) string {
	var r []string
	for i := 0; i < n; i++ {
		r = append(r, f(i))
	}
	return strings.Join(r, sep)
}

// scaleSchemas repeats one construct n times; the counters and positions of the emitted script get several digits.
func scaleSchemas(prop string, n int) []schema {
	var r []schema
	add := func(p, k, s string, a ...any) {
		if p == prop {
			r = append(r, schema{fmt.Sprintf("scale/%s/%d", k, n), fmt.Sprintf(s, a...)})
		}
	}
	j := func(sep, f string) string {
		return joinN(n, sep, func(i int) string {
			return strings.ReplaceAll(strings.ReplaceAll(f, "%i", fmt.Sprint(i)), "%j", fmt.Sprint(i+1))
		})
	}
	nest := func(open, inner, end string) string {
		return j("", open) + inner + strings.Repeat(end, n)
	}
	// C01
	add("C01", "vars", "%sprint(%s)\n%sprint(%s)\n", j("", "v%i := %j + #a\n"), j(", ", "v%i"), j("", "v%i++\n"), j(", ", "v%i"))
	add("C01", "define", "%s := %s\nprint(%s)\n%s = %s\nprint(%s)\n", j(", ", "v%i"), j(", ", "%j"), j(", ", "v%i"), j(", ", "v%i"), joinN(n, ", ", func(i int) string { return fmt.Sprintf("v%d", n-1-i) }), j(", ", "v%i"))
	add("C01", "vardecl", "var %s int\nprint(%s)\n", j(", ", "v%i"), j(", ", "v%i"))
	for _, o := range []string{"+", "-"} {
		add("C01", "sum"+o, "a := #a\nprint(a %s)\nprint(100 %s)\n", j(" ", o+" %j"), j(" ", o+" %j"))
	}
	add("C01", "product", "print(%s)\na := #a\nprint(a %s)\n", j(" * ", "1"), j(" ", "+ %j * 2"))
	add("C01", "concat", "s := \"\\x01s\\x01\"\nprint(%s)\nt := s %s\nprint(t)\n", j(" + ", `"<%i>"`), j(" ", `+ ".%i"`))
	add("C01", "and", "a := #a\nprint(%s)\nprint(%s)\n", j(" && ", "a != %i"), j(" || ", "a == %i"))
	add("C01", "groups", "a := #a\nprint(%s)\n", nest("(", "a", " + 1)"))
	add("C01", "elif", "a := #a\nif a == 1000 {\n print(\"first\")\n}%s else {\n print(\"else\")\n}\nprint(\"end\")\n", j("", " else if a == %i {\n print(\"b%i\")\n}"))
	add("C01", "cases", "a := #a\nswitch a {\n%sdefault:\n print(\"d\")\n}\nprint(\"end\")\n", j("", "case %i:\n print(\"c%i\")\n"))
	add("C01", "ifs", "a := #a\n%sprint(\"end\")\n", j("", "if a > %i {\n print(\"%i\")\n}\n"))
	add("C01", "ifnest", "a := #a\n%sprint(\"end\")\n", nest("if a > %i {\nprint(\"in %i\")\n", "", "}\n"))
	add("C01", "loops", "c := 0\n%sprint(c)\n", j("", "for i%i := 0; i%i < 2; i%i++ {\n c += %j\n if i%i == 1 {\n  continue\n }\n print(c)\n}\n"))
	if n <= 13 {
		add("C01", "loopnest", "c := 0\n%sprint(c)\n", nest("for i%i := 0; i%i < 1; i%i++ {\nc++\n", "print(c)\n", "c += 10\n}\n"))
		add("C01", "loopnest2", "c := 0\n%sprint(c)\n", nest("for {\nc++\nif c > 40 {\n break\n}\n", "", "print(c)\nif c > 20 {\n break\n}\ncontinue\n}\n"))
	}
	add("C01", "iterations", "c := 0\nfor i := 0; i < %d; i++ {\n c += i\n print(i, c)\n}\nprint(c)\n", n)
	add("C01", "prints", "%s", j("", "print(\"%i\")\n"))
	add("C01", "printargs", "a := #a\nprint(%s)\n", j(", ", "a + %i"))
	add("C01", "nots", "a := #a == 1\nb := !a\n%sprint(a, b)\n", j("", "b = !b\n"))
	add("C01", "text", "s := \"%s\"\nprint(s, len(s))\n", j("", "word%i "))
	// C02
	add("C02", "params", "func f(%s) int {\n print(%s)\n p0 = p%d\n return p%d\n}\nprint(f(%s))\nx := f(%s)\nprint(x)\n", j(", ", "p%i int"), j(", ", "p%i"), n-1, n-1, j(", ", "#a + %i"), j(", ", "%j * 3"))
	add("C02", "strparams", "func f(%s) string {\n return %s\n}\nprint(f(%s))\n", j(", ", "p%i string"), joinN(n, " + ", func(i int) string { return fmt.Sprintf("p%d", n-1-i) }), j(", ", `"s %i"`))
	add("C02", "results", "func f() (%s) {\n return %s\n}\n%s := f()\nprint(%s)\n%s = f()\nprint(%s)\n", j(", ", "int"), j(", ", "%j"), j(", ", "v%i"), j(", ", "v%i"), j(", ", "v%i"), joinN(n, ", ", func(i int) string { return fmt.Sprintf("v%d", n-1-i) }))
	add("C02", "forward", "func f() (%s) {\n return %s\n}\nfunc g() (%s) {\n return f()\n}\nfunc h(%s) {\n print(%s)\n}\nh(g())\n", j(", ", "int"), j(", ", "#a + %j"), j(", ", "int"), j(", ", "p%i int"), j(", ", "p%i"))
	add("C02", "functions", "%sprint(%s)\nx := 7\n%sprint(x)\n", j("", "func f%i(x int) int {\n y := x + %i\n return y\n}\n"), j(", ", "f%i(1)"), j("", "x = f%i(x)\n"))
	add("C02", "chain", "func f0(x int) int {\n return x + 1\n}\n%sx := #a\nprint(f%d(x), x)\n", joinN(n, "", func(i int) string {
		return fmt.Sprintf("func f%d(x int) int {\n y := x\n z := f%d(x + 1)\n return z + y\n}\n", i+1, i)
	}), n)
	add("C02", "nested", "func f(x int, y int) int {\n return x + y * 2\n}\nprint(%s)\n", j("", "f(%j, ")+"#a"+strings.Repeat(")", n))
	add("C02", "calls", "c := 0\nfunc f(x int) int {\n c += x\n return c\n}\n%sprint(c)\nprint(%s)\n", j("", "f(%i)\n"), j(" + ", "f(%i)"))
	add("C02", "globals", "%sfunc set(x int) {\n%s}\nfunc sum() int {\n return %s\n}\nprint(sum())\nset(5)\nprint(sum(), %s)\n", j("", "g%i := %i\n"), j("", " g%i += x + %i\n"), j(" + ", "g%i"), j(", ", "g%i"))
	add("C02", "locals", "func f(x int) int {\n%s return %s\n}\nprint(f(1), f(2))\n", j("", " l%i := x + %i\n"), j(" + ", "l%i"))
	add("C02", "returns", "func f(x int) int {\n%s return -1\n}\nprint(f(#a))\nprint(f(%d))\n", j("", " if x == %i {\n  return %j * 100\n }\n"), n-1)
	// C03
	add("C03", "literal", "s := []int{%s}\nprint(len(s), s[%d], s[0])\nfor i, v := range s {\n print(i, v)\n}\n", j(", ", "%j * 2"), n-1)
	add("C03", "strings", "s := []string{%s}\nfor i, v := range s {\n print(i, v)\n}\ns[%d] = \"new\"\nprint(len(s), s[%d], s[%d])\n", j(", ", `"e %i"`), n, n, n-1)
	add("C03", "grow", "s := []int{}\nfor i := 0; i < %d; i++ {\n s[len(s)] = i * i\n}\nprint(len(s), s[%d])\nt := s\nt[%d] = 7\nprint(len(s), s[%d], s[%d])\n", n, n-1, n+2, n+2, n+1)
	add("C03", "gap", "s := []string{\"a\"}\ns[%d] = \"z\"\nprint(len(s), s[0], s[%d], s[%d])\nfor i, v := range s {\n print(i, v + \".\")\n}\nt := []int{}\nt[%d] = 1\nu := t\nu[%d] = 2\nfor i := 0; i < len(t); i++ {\n print(t[i], u[i])\n}\n", n, n-1, n, n-1, n+3)
	add("C03", "slices", "%sprint(%s)\n%sprint(%s)\n", j("", "s%i := []int{%i, %j}\n"), j(", ", "s%i[1]"), j("", "s%i[2] = %j\n"), j(", ", "len(s%i) + s%i[0]"))
	add("C03", "made", "func mk(x int) []int {\n return []int{x, x + 1}\n}\nlast := []int{}\nfirst := mk(0)\nfor i := 0; i < %d; i++ {\n last = mk(i)\n last[2] = i\n}\nprint(first[0], first[1], len(first), last[0], last[1], last[2], len(last))\n", n)
	add("C03", "copy", "s := []int{%s}\nt := []int{%s}\nn := copy(t, s)\nprint(n, len(t), t[%d])\nu := []int{}\nn = copy(u, s)\nprint(n, len(u), u[0], u[%d])\nfor i, v := range u {\n print(v, t[i])\n}\n", j(", ", "%i"), j(", ", "100"), n-1, n-1)
	add("C03", "substr", "s := \"%s\"\nprint(s[%d], s[0:%d], s[%d:%d], s[%d:len(s)], len(s))\nfor i := 0; i < len(s); i++ {\n print(i, s[i])\n}\n", joinN(n, "", func(i int) string { return string(rune('a' + i%26)) }), n-1, n, n/2, n-1, n-2)
	add("C03", "pairs", "s := \"%s\"\nfor i := 0; i <= len(s); i += 1 + i %% 3 {\n for k := i; k <= len(s); k += 3 {\n  print(i, k, s[i:k] + \".\")\n }\n print(s[i:] + \"|\", s[:i] + \"|\")\n}\n", joinN(n, "", func(i int) string { return string(rune('a' + i*7%26)) }))
	add("C03", "index", "s := []int{%s}\nfor i := len(s) - 1; i >= 0; i-- {\n s[i] = s[len(s) - 1] * 2 + s[i]\n}\nfor i, v := range s {\n print(i, v)\n}\n", j(", ", "%i"))
	// C04
	add("C04", "args", "func f(x int) int {\n print(x)\n return x\n}\nfunc g(%s) {\n print(%s)\n}\ng(%s)\nprint(%s)\n", j(", ", "p%i int"), j(", ", "p%i"), j(", ", "f(%i)"), j(", ", "f(%j)"))
	add("C04", "ops", "func f(x int) int {\n print(x)\n return x\n}\nx := %s\nprint(x)\nb := %s\nprint(b)\n", j(" + ", "f(%i)"), j(" || ", "f(%i) == #a"))
	add("C04", "elems", "func f(x int) int {\n print(x)\n return x\n}\ns := []int{%s}\nprint(s[%d])\n%s := %s\nprint(%s)\n", j(", ", "f(%i)"), n-1, j(", ", "v%i"), j(", ", "f(%j)"), j(", ", "v%i"))
	add("C04", "elif", "func f(x int) bool {\n print(x)\n return x == #a\n}\nif f(0) {\n print(\"z\")\n}%s else {\n print(\"none\")\n}\n", j("", " else if f(%j) {\n print(\"b%j\")\n}"))
	return r
}

// scaleSizes: around the first positions with more digits than the ones before.
func scaleSizes(prop string, thorough bool) []int {
	s := []int{9, 10, 11, 12, 17}
	if prop == "C03" {
		s = append(s, 32, 40)
	}
	if prop == "C07" {
		s = []int{11, 17}
	}
	if thorough {
		if prop == "C07" {
			return append(s, 9, 10, 12, 20)
		}
		s = append(s, 7, 8, 13, 14, 15, 16, 20, 26, 33, 41)
		if prop != "C09" {
			s = append(s, 64)
		}
		if prop == "C01" || prop == "C02" {
			s = append(s, 101)
		}
	}
	return s
}

func scaleAll(prop string, thorough bool) []schema {
	var r []schema
	for _, n := range scaleSizes(prop, thorough) {
		r = append(r, scaleSchemas(prop, n)...)
	}
	return r
}

// ---------------------------------------------------------------- sizes of the other properties

// oddPlaces: the places of n where a fault is put; -1 is none.
func oddPlaces(n int) []int {
	r := []int{-1, 0}
	for _, i := range []int{8, 9, 10, 15, 16, n / 2, n - 2, n - 1} {
		ok := i > 0 && i < n
		for _, x := range r {
			ok = ok && x != i
		}
		if ok {
			r = append(r, i)
		}
	}
	return r
}

// scaleTypes: one operand of many has a type of its own.
func (c *Ctx) scaleTypes() {
	for _, n := range scaleSizes("C06", !c.quick()) {
		for _, bad := range oddPlaces(n) {
			// one of n parts is odd
			pick := func(sep, good, odd string) string {
				return joinN(n, sep, func(i int) string {
					s := good
					if i == bad {
						s = odd
					}
					return strings.ReplaceAll(s, "%i", fmt.Sprint(i))
				})
			}
			add := func(k, s string) { c.judgedLenient(fmt.Sprintf("scale/%s/%d/%d", k, n, bad), withTypePre(s)) }
			ps, pss := joinN(n, ", ", func(i int) string { return fmt.Sprintf("q%d int", i) }), joinN(n, ", ", func(i int) string { return fmt.Sprintf("q%d string", i) })
			vs := joinN(n, ", ", func(i int) string { return fmt.Sprintf("w%d", i) })
			ts := joinN(n, ", ", func(i int) string { return "int" })
			dummy := joinN(n, ", ", func(i int) string { return fmt.Sprint(i) })
			add("arg", "func m("+ps+") int {\n return q0\n}\nprint(m("+pick(", ", "%i", "gs")+"))\n")
			add("argbool", "func m("+ps+") int {\n return q0\n}\nx := m("+pick(", ", "gi", "gb")+")\n")
			add("argstr", "func m("+pss+") {\n}\nm("+pick(", ", "gs", "gi")+")\n")
			add("argslice", "func m("+ps+") int {\n return q0\n}\nprint(m("+pick(", ", "ai[%i]", "as[%i]")+"))\n")
			add("param", "func m("+pick(", ", "q%i int", "q%i string")+") int {\n return "+pick(" + ", "q%i", "q%i")+"\n}\n")
			add("paramcall", "func m("+pick(", ", "q%i int", "q%i []int")+") {\n}\nm("+dummy+")\n")
			add("result", "func m() ("+ts+") {\n return "+pick(", ", "%i", "gs")+"\n}\n")
			add("resulttype", "func m() ("+pick(", ", "int", "bool")+") {\n return "+dummy+"\n}\n")
			add("resultvar", "func m() ("+pick(", ", "int", "string")+") {\n return "+pick(", ", "gi", "gs")+"\n}\n"+vs+" := m()\nx := "+pick(" + ", "w%i", "w%i")+"\n")
			add("forward", "func m() ("+pick(", ", "int", "string")+") {\n return "+pick(", ", "gi", "gs")+"\n}\nfunc t("+ps+") {\n}\nt(m())\n")
			add("define", vs+" := "+pick(", ", "%i", "gs")+"\n"+vs+" = "+dummy+"\n")
			add("var", "var "+vs+" int = "+pick(", ", "%i", "gb")+"\n")
			add("assign", "var "+vs+" int\n"+vs+" = "+pick(", ", "gi", "gs")+"\n")
			add("literal", "x := []int{"+pick(", ", "%i", "gs")+"}\n")
			add("literalbool", "x := []bool{"+pick(", ", "gb", "gi")+"}\n")
			add("literalstr", "x := []string{"+pick(", ", "gs", "gi")+"}\n")
			for _, o := range []string{"+", "-", "*", "/", "%"} {
				add("op"+o, "x := "+pick(" "+o+" ", "gi", "gs")+"\n")
			}
			for _, o := range []string{"&&", "||"} {
				add("logic"+o, "x := "+pick(" "+o+" ", "gb", "gi")+"\n")
				add("cmp"+o, "x := "+pick(" "+o+" ", "gi == %i", "gs == %i")+"\n")
			}
			add("concat", "x := "+pick(" + ", "gs", "gb")+"\n")
			add("elif", "if gb {\n}"+pick("", " else if gi == %i {\n print(%i)\n}", " else if gi {\n}")+"\n")
			add("elifbody", "if gb {\n print(1)\n}"+pick("", " else if gi == %i {\n print(%i)\n}", " else if gc {\n gi = gs\n}")+" else {\n print(2)\n}\n")
			add("case", "switch gi {\n"+pick("", "case %i:\n print(%i)\n", "case gs:\n print(%i)\n")+"}\n")
			add("casebody", "switch gi {\n"+pick("", "case %i:\n print(%i)\n", "case 100:\n gi = \"s\"\n")+"default:\n print(1)\n}\n")
			add("statement", "z := 0\n"+pick("", "z += %i\n", "z += gs\n"))
			add("function", pick("", "func h%i(q int) int {\n return q + %i\n}\n", "func h%i(q int) int {\n return gs\n}\n")+"print("+pick(", ", "h%i(1)", "1")+")\n")
			add("functioncall", joinN(n, "", func(i int) string { return fmt.Sprintf("func h%d(q int) int {\n return q\n}\n", i) })+"print("+pick(", ", "h%i(1)", "h%i(gs)")+")\n")
			add("paths", "func m(q int) int {\n"+pick("", " if q == %i {\n  return %i\n }\n", " if q == %i {\n  return gs\n }\n")+" return 0\n}\n")
			add("nest", joinN(n, "", func(i int) string {
				if i == bad {
					return "if gi {\n"
				}
				return fmt.Sprintf("if gi == %d {\n", i)
			})+"print(1)\n"+strings.Repeat("}\n", n))
			add("nestloop", joinN(n, "", func(i int) string {
				if i == bad {
					return "for gs {\n"
				}
				return fmt.Sprintf("for u%d := 0; u%d < 2; u%d++ {\n", i, i, i)
			})+"print(1)\n"+strings.Repeat("}\n", n))
			if bad < 0 {
				// one too few, one too many
				for d := -1; d <= 1; d++ {
					ls := func(m int, f string) string {
						return joinN(m, ", ", func(i int) string { return strings.ReplaceAll(f, "%i", fmt.Sprint(i)) })
					}
					k := fmt.Sprintf("%+d", d)
					add("count/arg"+k, "func m("+ps+") int {\n return q0\n}\nprint(m("+ls(n+d, "%i")+"))\n")
					add("count/result"+k, "func m() ("+ts+") {\n return "+ls(n+d, "%i")+"\n}\n")
					add("count/unpack"+k, "func m() ("+ts+") {\n return "+dummy+"\n}\n"+ls(n+d, "w%i")+" := m()\n")
					add("count/unpackset"+k, "func m() ("+ts+") {\n return "+dummy+"\n}\nvar "+ls(n+d, "w%i")+" int\n"+ls(n+d, "w%i")+" = m()\n")
					add("count/forward"+k, "func m() ("+ts+") {\n return "+dummy+"\n}\nfunc t("+ls(n+d, "q%i int")+") {\n}\nt(m())\n")
					add("count/define"+k, vs+" := "+ls(n+d, "%i")+"\n")
					add("count/var"+k, "var "+vs+" int = "+ls(n+d, "%i")+"\n")
					add("count/assign"+k, "var "+vs+" int\n"+vs+" = "+ls(n+d, "%i")+"\n")
				}
			}
		}
		// depth
		for _, e := range []string{"gi", "gs", "gb", "ai[0]", "fs()", "fi() == 1"} {
			add := func(k, s string) { c.judgedLenient(fmt.Sprintf("scale/%s/%d/%s", k, n, e), withTypePre(s)) }
			o, cl := strings.Repeat("(", n), strings.Repeat(")", n)
			add("group", "x := "+o+e+cl+"\ngi = x\n")
			add("groupcond", "if "+o+e+cl+" {\n}\n")
			add("groupop", "x := "+o+e+strings.Repeat(" + 1)", n)+"\n")
			add("groupnot", "x := "+strings.Repeat("!(", n)+e+cl+"\n")
			add("calls", "x := "+strings.Repeat("p1(", n)+e+cl+"\n")
			add("block", strings.Repeat("if gb {\n", n)+"gi = "+e+"\n"+strings.Repeat("}\n", n))
			add("blocks", strings.Repeat("if gb {\n print(1)\n} else {\nfor gc {\n", n)+"z := "+e+"\nz = gi\n"+strings.Repeat("}\n}\n", n))
		}
	}
}

// scaleScopes: many names, many scopes, deep scopes.
func (c *Ctx) scaleScopes() {
	for _, n := range scaleSizes("C07", !c.quick()) {
		add := func(k, s string) {
			k = fmt.Sprintf("scale/%s/%d", k, n)
			c.judged(k, s, nil)
			c.judged("module/"+k, s, asModule(s))
			if v := c.verdict(s); v == "accept" {
				c.program("run/"+k, s, progOpt{})
			}
		}
		all := func(sep, f string) string {
			return joinN(n, sep, func(i int) string { return strings.ReplaceAll(f, "%i", fmt.Sprint(i)) })
		}
		for _, i := range oddPlaces(n)[1:] {
			// names of the same scope
			add(fmt.Sprintf("known/%d", i), all("", "v%i := %i\n")+fmt.Sprintf("print(v%d)\n", i))
			add(fmt.Sprintf("redeclared/%d", i), all("", "v%i := %i\n")+fmt.Sprintf("v%d := 1\n", i))
			add(fmt.Sprintf("redeclared/var/%d", i), all("", "v%i := %i\n")+fmt.Sprintf("var v%d int\n", i))
			add(fmt.Sprintf("inner/%d", i), all("", "v%i := %i\n")+fmt.Sprintf("if v0 == 0 {\n v%d := 1\n print(v%d)\n}\n", i, i))
			add(fmt.Sprintf("unknown/%d", i), joinN(n, "", func(k int) string {
				if k == i {
					return ""
				}
				return fmt.Sprintf("v%d := %d\n", k, k)
			})+fmt.Sprintf("print(v%d)\n", i))
			add(fmt.Sprintf("early/%d", i), joinN(n, "", func(k int) string {
				if k == i {
					return fmt.Sprintf("print(v%d)\n", (k+1)%n)
				}
				return fmt.Sprintf("v%d := %d\n", k, k)
			}))
			add(fmt.Sprintf("params/%d", i), fmt.Sprintf("func f(%s) int {\n print(p%d)\n return p0\n}\nprint(f(%s))\nprint(p%d)\n", all(", ", "p%i int"), i, all(", ", "%i"), i))
			add(fmt.Sprintf("paramused/%d", i), fmt.Sprintf("func f(%s) int {\n x := p%d\n return x\n}\nprint(f(%s))\n", all(", ", "p%i int"), i, all(", ", "%i")))
			add(fmt.Sprintf("paramtwice/%d", i), fmt.Sprintf("func f(%s, p%d int) {\n}\n", all(", ", "p%i int"), i))
			add(fmt.Sprintf("definetwice/%d", i), fmt.Sprintf("%s, v%d := %s, 1\n", all(", ", "v%i"), i, all(", ", "%i")))
			add(fmt.Sprintf("vartwice/%d", i), fmt.Sprintf("var %s, v%d int\n", all(", ", "v%i"), i))
			add(fmt.Sprintf("assignunknown/%d", i), fmt.Sprintf("var %s int\n%s = %s\n", all(", ", "v%i"), joinN(n, ", ", func(k int) string {
				if k == i {
					return "u"
				}
				return fmt.Sprintf("v%d", k)
			}), all(", ", "%i")))
			// names of functions
			add(fmt.Sprintf("functions/%d", i), all("", "func f%i() int {\n return %i\n}\n")+fmt.Sprintf("print(f%d())\n", i))
			add(fmt.Sprintf("functions/again/%d", i), all("", "func f%i() int {\n return %i\n}\n")+fmt.Sprintf("func f%d() {\n}\n", i))
			add(fmt.Sprintf("functions/later/%d", i), joinN(n, "", func(k int) string {
				if k == i {
					return fmt.Sprintf("func f%d() int {\n return f%d()\n}\n", k, k+1)
				}
				return fmt.Sprintf("func f%d() int {\n return %d\n}\n", k, k)
			})+"print(1)\n")
			// depth: the name lives at depth i
			open := func(decl string) string {
				return joinN(n, "", func(k int) string {
					s := fmt.Sprintf("if a == %d {\n", k)
					if k == i {
						s += decl
					}
					return s
				})
			}
			cl := func(use string) string {
				return joinN(n, "", func(k int) string {
					if k == n-i {
						return use + "}\n"
					}
					return "}\n"
				})
			}
			add(fmt.Sprintf("depth/inside/%d", i), "a := 1\n"+open("x := a\n")+"print(x)\nx++\n"+strings.Repeat("}\n", n)+"print(a)\n")
			add(fmt.Sprintf("depth/leaving/%d", i), "a := 1\n"+open("x := a\n")+"print(a)\n"+cl("print(x)\n"))
			add(fmt.Sprintf("depth/left/%d", i), "a := 1\n"+open("x := a\n")+"print(x)\n"+strings.Repeat("}\n", n)+"print(x)\n")
			add(fmt.Sprintf("depth/shadow/%d", i), "a := 1\n"+open("x := a\n")+"x := 2\nprint(x)\n"+strings.Repeat("}\n", n))
			add(fmt.Sprintf("depth/after/%d", i), "a := 1\n"+open("x := a\nprint(x)\n")+strings.Repeat("}\n", n)+"x := 5\nprint(x)\n")
			add(fmt.Sprintf("depth/for/%d", i), joinN(n, "", func(k int) string { return fmt.Sprintf("for i%d := 0; i%d < 1; i%d++ {\n", k, k, k) })+fmt.Sprintf("print(i%d)\n", i)+strings.Repeat("}\n", n))
			add(fmt.Sprintf("depth/forleft/%d", i), joinN(n, "", func(k int) string { return fmt.Sprintf("for i%d := 0; i%d < 1; i%d++ {\n", k, k, k) })+strings.Repeat("}\n", n)+fmt.Sprintf("print(i%d)\n", i))
			// what may stand where, in depth
			for _, st := range []string{"break\n", "continue\n"} {
				add(fmt.Sprintf("loop/%s/%d", strings.TrimSpace(st), i), "a := 1\n"+joinN(n, "", func(k int) string {
					if k == i {
						return "for a < 3 {\na++\n"
					}
					return "if a > 0 {\n"
				})+st+strings.Repeat("}\n", n))
				add(fmt.Sprintf("loop/out/%s/%d", strings.TrimSpace(st), i), "a := 1\n"+joinN(n, "", func(k int) string {
					if k == i {
						return "for a < 3 {\na++\n"
					}
					return "if a > 0 {\n"
				})+joinN(n, "", func(k int) string {
					if k == n-i {
						return st + "}\n"
					}
					return "}\n"
				})+st)
			}
		}
		add("sequence", "a := 1\n"+all("", "if a == 1 {\n x := %i\n print(x)\n}\n")+"x := 2\nprint(x)\n")
		add("sequence/left", "a := 1\n"+all("", "if a == 1 {\n x := %i\n print(x)\n}\n")+"print(x)\n")
		add("functions/locals", all("", "func f%i(p int) int {\n x := p + %i\n return x\n}\n")+"x := 2\np := 3\nprint(x, p, "+all(", ", "f%i(x)")+")\n")
		add("functions/locals/left", all("", "func f%i(p int) int {\n x := p + %i\n return x\n}\n")+"print(x)\n")
		add("funcreturn/depth", "func f(a int) int {\n"+all("", "if a != %i {\n")+"return 7\n"+strings.Repeat("}\n", n)+"return 8\n}\nprint(f(100), f(1))\n")
		add("return/depth", "a := 1\n"+all("", "if a != %i {\n")+"return 7\n"+strings.Repeat("}\n", n))
		add("func/depth", "a := 1\n"+all("", "if a != %i {\n")+"func f() {\n}\n"+strings.Repeat("}\n", n))
	}
}

// scaleLinks: many files, many functions, long chains.
func (c *Ctx) scaleLinks() {
	for _, n := range scaleSizes("C09", !c.quick()) {
		add := func(k string, p *Project) { c.linked(fmt.Sprintf("scale/%s/%d", k, n), p) }
		all := func(sep, f string) string {
			return joinN(n, sep, func(i int) string { return strings.ReplaceAll(f, "%i", fmt.Sprint(i)) })
		}
		lib := func(i int) string {
			return fmt.Sprintf("state := %d\nfunc step(p int) int {\n state += p\n return state\n}\nfunc Go(p int) int {\n return step(p + %d)\n}\nprint(\"lib %d\", state)\n", i*10, i, i)
		}
		// many files side by side
		p := files("main.tsh", "import (\n"+all("", " a%i \"m%i.tsh\"\n")+")\nstate := 7\nprint("+all(", ", "a%i.Go(1)")+")\nprint("+all(", ", "a%i.Go(state)")+", state)\n")
		for i := 0; i < n; i++ {
			p.Files[fmt.Sprintf("/w/m%d.tsh", i)] = lib(i)
		}
		add("wide", p)
		// one of many files is faulty or asked for something it does not have
		for _, bad := range oddPlaces(n)[1:] {
			for _, x := range []struct{ k, lib, use string }{
				{"private", lib(bad), fmt.Sprintf("print(a%d.step(1))\n", bad)}, {"broken", "x := \"s\" + 1\n" + lib(bad), ""}, {"missing", "", ""}, {"noname", lib(bad), fmt.Sprintf("print(a%d.Nope())\n", bad)}, {"foreign", lib(bad), "print(Go(1))\n"},
			} {
				q := files("main.tsh", "import (\n"+all("", " a%i \"m%i.tsh\"\n")+")\nprint("+all(", ", "a%i.Go(1)")+")\n"+x.use)
				for i := 0; i < n; i++ {
					q.Files[fmt.Sprintf("/w/m%d.tsh", i)] = lib(i)
				}
				if x.lib == "" {
					delete(q.Files, fmt.Sprintf("/w/m%d.tsh", bad))
				} else {
					q.Files[fmt.Sprintf("/w/m%d.tsh", bad)] = x.lib
				}
				add(fmt.Sprintf("wide/%s/%d", x.k, bad), q)
			}
			// an alias that another import has
			q := files("main.tsh", "import (\n"+all("", " a%i \"m%i.tsh\"\n")+fmt.Sprintf(" a%d \"mx.tsh\"\n)\nprint(a0.Go(1))\n", bad), "mx.tsh", lib(3))
			for i := 0; i < n; i++ {
				q.Files[fmt.Sprintf("/w/m%d.tsh", i)] = lib(i)
			}
			add(fmt.Sprintf("wide/alias/%d", bad), q)
			// a chain that closes at one of its files
			r := files("main.tsh", "import m \"m0.tsh\"\nprint(m.Go(1))\n")
			for i := 0; i < n; i++ {
				next := fmt.Sprintf("import n \"m%d.tsh\"\n", i+1)
				if i == n-1 {
					next = fmt.Sprintf("import n \"m%d.tsh\"\n", bad)
				}
				r.Files[fmt.Sprintf("/w/m%d.tsh", i)] = next + lib(i)
			}
			add(fmt.Sprintf("cycle/%d", bad), r)
			// a chain with one faulty file
			s := files("main.tsh", "import m \"m0.tsh\"\nprint(m.Go(1))\n")
			for i := 0; i < n; i++ {
				t := lib(i)
				if i < n-1 {
					t = fmt.Sprintf("import n \"m%d.tsh\"\n", i+1) + t
				}
				if i == bad {
					t += "print(y)\n"
				}
				s.Files[fmt.Sprintf("/w/m%d.tsh", i)] = t
			}
			add(fmt.Sprintf("chain/broken/%d", bad), s)
		}
		// a chain of files, the same function names and variables in each
		q := files("main.tsh", "import m \"m0.tsh\"\nstate := 5\nfunc step(p int) int {\n return p * 2\n}\nprint(m.Go(1), step(state))\nprint(m.Go(2), state)\n")
		d := files("main.tsh", "import m \"d/m0.tsh\"\nprint(m.Go(1))\n")
		for i := 0; i < n; i++ {
			t := fmt.Sprintf("state := %d\nfunc step(p int) int {\n state += p\n return state\n}\nfunc Go(p int) int {\n return step(p)\n}\n", i)
			if i < n-1 {
				t = fmt.Sprintf("import m \"m%d.tsh\"\nstate := %d\nfunc step(p int) int {\n state += p\n return state\n}\nfunc Go(p int) int {\n return step(p) + m.Go(p + 1)\n}\nprint(\"file\", state)\n", i+1, i)
			}
			q.Files[fmt.Sprintf("/w/m%d.tsh", i)] = t
			d.Files["/w/"+strings.Repeat("d/", i+1)+fmt.Sprintf("m%d.tsh", i)] = strings.Replace(t, `"m`, `"d/m`, 1)
		}
		add("chain", q)
		add("chain/dirs", d)
		// everyone imports everyone after it
		e := files()
		e.Main = "/w/m0.tsh"
		m := min(n, 12)
		for i := 0; i < m; i++ {
			t, use := "", "0"
			if i < m-1 {
				t = "import (\n"
				for k := i + 1; k < m; k++ {
					t += fmt.Sprintf(" a%d \"m%d.tsh\"\n", k, k)
				}
				t += ")\n"
				use = fmt.Sprintf("a%d.Go(p)", i+1)
				if i+3 < m {
					use += fmt.Sprintf(" + a%d.Own()", i+3)
				}
			}
			e.Files[fmt.Sprintf("/w/m%d.tsh", i)] = t + fmt.Sprintf("count := %d\nfunc Own() int {\n count++\n return count\n}\nfunc Go(p int) int {\n return %s + Own()\n}\nprint(\"init %d\", count)\n", i, use, i)
		}
		e.Files["/w/m0.tsh"] += "print(Go(1))\nprint(Go(2))\n"
		if n <= 12 {
			add("dense", e)
		}
		// many functions: used, used through others, unused
		l := all("", "func f%i(p int) int {\n return p + %i\n}\nfunc F%i(p int) int {\n return f%i(p) * 2\n}\n")
		for _, i := range oddPlaces(n)[1:] {
			add(fmt.Sprintf("functions/%d", i), files("main.tsh", fmt.Sprintf("import l \"l.tsh\"\nprint(l.F%d(3))\n", i), "l.tsh", l))
		}
		add("functions/all", files("main.tsh", "import l \"l.tsh\"\nprint("+all(", ", "l.F%i(1)")+")\n", "l.tsh", l))
		chain := "func g0(p int) int {\n print(\"g0\")\n return p\n}\n" + joinN(n, "", func(i int) string {
			return fmt.Sprintf("func g%d(p int) int {\n return g%d(p) + 1\n}\n", i+1, i)
		})
		add("removal/chain", oneFile(chain+fmt.Sprintf("print(g%d(#a))\n", n)))
		add("removal/half", oneFile(chain+fmt.Sprintf("print(g%d(#a))\n", n/2)))
		add("removal/module", files("main.tsh", "import l \"l.tsh\"\nprint(l.Top(1))\n", "l.tsh", chain+fmt.Sprintf("func Top(p int) int {\n return g%d(p)\n}\nfunc Other(p int) int {\n return g%d(p)\n}\n", n, n-1)))
		add("removal/wide", oneFile(all("", "func h%i() int {\n print(%i)\n return %i\n}\n")+"func all() int {\n return "+all(" + ", "h%i()")+"\n}\nprint(all())\n"))
		// calls in the depth of blocks and expressions
		lb := "func Pub(p int) int {\n print(\"pub\", p)\n return p + 1\n}\n"
		add("deep/blocks", files("main.tsh", "import l \"l.tsh\"\na := 1\n"+strings.Repeat("if a == 1 {\n", n)+"print(l.Pub(2))\n"+strings.Repeat("}\n", n), "l.tsh", lb))
		add("deep/expr", files("main.tsh", "import l \"l.tsh\"\nprint("+strings.Repeat("(1 + ", n)+"l.Pub(2)"+strings.Repeat(")", n)+")\nprint("+strings.Repeat("l.Pub(", n)+"1"+strings.Repeat(")", n)+")\n", "l.tsh", lb))
		add("deep/elif", files("main.tsh", "import l \"l.tsh\"\na := 1\nif a == 2 {\n}"+all("", " else if a == %i + 2 {\n}")+" else {\n print(l.Pub(1))\n}\n", "l.tsh", lb))
		add("deep/args", files("main.tsh", "import l \"l.tsh\"\nfunc f("+all(", ", "p%i int")+") int {\n return p0\n}\nprint(f("+all(", ", "l.Pub(%i)")+"))\n", "l.tsh", lb))
		add("deep/last", files("main.tsh", "import l \"l.tsh\"\n"+all("", "print(%i)\n")+"print(l.Pub(1))\n", "l.tsh", lb))
	}
}

// scaleData: many lines, long texts, many files and arguments.
func (c *Ctx) scaleStore() {
	ws := storeWorlds()[:2]
	for _, n := range scaleSizes("C17", !c.quick()) {
		add := func(k, s string) {
			c.program(fmt.Sprintf("scale/%s/%d", k, n), s, progOpt{worlds: ws, maxPaths: 40})
		}
		all := func(sep, f string) string {
			return joinN(n, sep, func(i int) string { return strings.ReplaceAll(f, "%i", fmt.Sprint(i)) })
		}
		add("appends", "write(\"f\", \"first\")\n"+all("", "write(\"f\", \"line  %i\", true)\n")+"print(read(\"f\"))\n")
		add("loop", fmt.Sprintf("for i := 0; i < %d; i++ {\n write(\"f\", itoa(i) + \" \", i > 0)\n}\ns := read(\"f\")\nprint(s)\nprint(len(s))\n", n))
		add("overwrites", all("", "write(\"f\", \"%i\")\n")+"print(read(\"f\"))\n")
		add("files", all("", "write(\"f %i\", \"content %i\")\n")+all("", "print(read(\"f %i\"))\n")+"print("+all(", ", "exists(\"f %i\")")+", exists(\"f\"), exists(\"f 1000\"))\n")
		add("lines", "write(\"f\", \""+all("\\n", "line %i")+"\")\ns := read(\"f\")\nprint(s)\nwrite(\"g\", s)\nprint(read(\"g\") == s)\n")
		add("blanklines", "write(\"f\", \"a"+strings.Repeat("\\n", n)+"b\")\nprint(read(\"f\"))\nprint(len(read(\"f\")))\n")
		add("long", "write(\"f\", \""+all(" ", "word%i")+"\")\nprint(read(\"f\"))\n")
		add("spaces", "write(\"f\", \"a"+strings.Repeat(" ", n)+"b"+strings.Repeat(" ", n)+"\")\nprint(read(\"f\"))\nprint(len(read(\"f\")))\n")
		add("path", "p := \""+all("", "x%i ")+"\"\nwrite(p, \"c\")\nprint(exists(p), read(p), exists(\"x0\"))\nwrite(p, \"d\", true)\nprint(read(p))\n")
		add("transfers", "write(\"f0\", \"a  b\")\n"+joinN(n, "", func(i int) string {
			return fmt.Sprintf("write(\"f%d\", read(\"f%d\"))\nwrite(\"f%d\", \"+%d\", true)\n", i+1, i, i+1, i)
		})+fmt.Sprintf("print(read(\"f%d\"))\n", n))
		add("flags", "t := true\nf := false\nwrite(\"f\", \"0\", f)\nwrite(\"f\", \"1\", "+strings.Repeat("t && ", n)+"!f)\nwrite(\"f\", \"2\", "+strings.Repeat("(", n)+"t"+strings.Repeat(")", n)+")\nprint(read(\"f\"))\n")
		add("depth", strings.Repeat("if !exists(\"f\") {\n", n)+"write(\"f\", \"deep\")\nprint(read(\"f\"))\n"+strings.Repeat("}\n", n)+"print(exists(\"f\"))\n")
	}
}

func (c *Ctx) scaleCommands() {
	for _, n := range scaleSizes("C18", !c.quick()) {
		ws := func(at *Atoms) *WorldModel {
			w := cmdWorlds()[0].mk(at)
			for i := 0; i <= n; i++ {
				name := fmt.Sprintf("c%d", i)
				cd := fmt.Sprint(i % 7)
				w.Progs[name] = func(sy *Sym, args []string, stdin string) (string, string, string) {
					return name + "{" + strings.Join(args, "\x1f") + "|" + stdin + "}\n", "", cd
				}
			}
			return w
		}
		add := func(k, s string) {
			c.program(fmt.Sprintf("scale/%s/%d", k, n), s, progOpt{worlds: []namedWorld{{"", ws}}, maxPaths: 40})
		}
		all := func(sep, f string) string {
			return joinN(n, sep, func(i int) string { return strings.ReplaceAll(f, "%i", fmt.Sprint(i)) })
		}
		add("args", "@K_p("+all(", ", "\"a %i\"")+")\nso, se, sc := @K_p("+all(", ", "\"b  %i\"")+")\nprint(so)\nprint(sc)\n")
		add("argvars", all("", "v%i := \"*%i \"\n")+"@K_p("+all(", ", "v%i")+")\nso, se, sc := @K_p("+all(", ", "v%i")+") | @K_q("+all(", ", "v%i + \"x\"")+")\nprint(so)\nprint(sc)\n")
		add("argempty", "@K_p("+all(", ", "\"\"")+", \"z\")\n@K_p("+all(", ", "itoa(%i)")+")\n")
		add("argslice", "s := []string{"+all(", ", "\"e %i\"")+"}\n@K_p("+all(", ", "s[%i]")+")\n")
		add("argcalls", "func f(p int) string {\n print(p)\n return itoa(p) + \" \"\n}\n@K_p("+all(", ", "f(%i)")+")\n")
		add("argparams", "func run("+all(", ", "p%i string")+") int {\n @K_p("+all(", ", "p%i")+")\n so, se, sc := @K_q("+all(", ", "p%i")+")\n print(so)\n return sc\n}\nprint(run("+all(", ", "\"p %i\"")+"))\n")
		add("arglong", "v := \""+all(" ", "word%i")+"\"\n@K_p(v, v + \" \", \""+all("  ", "w%i")+"\")\n")
		pipe := joinN(n, " | ", func(i int) string { return fmt.Sprintf("@K_c%d(\"a %d\")", i, i) })
		add("pipe", pipe+"\nprint(\"mid\")\nso, se, sc := "+pipe+"\nprint(so)\nprint(sc)\n")
		add("pipefunc", "func run(x string) (string, int) {\n so, se, sc := "+joinN(n, " | ", func(i int) string { return fmt.Sprintf("@K_c%d(x)", i) })+"\n return so, sc\n}\no, k := run(\"a b\")\nprint(o)\nprint(k)\n")
		add("pipeargs", joinN(3, " | ", func(i int) string { return fmt.Sprintf("@K_c%d(%s)", i, all(", ", "\"x %i\"")) })+"\nprint(1)\n")
		add("many", joinN(n, "", func(i int) string { return fmt.Sprintf("@K_c%d(\"a\")\n", i) })+"print(1)\n")
		add("captures", joinN(n, "", func(i int) string {
			return fmt.Sprintf("so%d, se%d, sc%d := @K_c%d(\"a %d\")\n", i, i, i, i, i)
		})+all("", "print(so%i)\n")+"print("+all(", ", "sc%i")+")\n")
		add("feeding", "v := \"s\"\ne := \"\"\nk := 0\nt := 0\n"+joinN(n, "", func(i int) string { return fmt.Sprintf("v, e, k = @K_c%d(v)\nt += k\n", i) })+"print(v)\nprint(t)\n")
		add("loop", fmt.Sprintf("t := 0\nfor i := 0; i < %d; i++ {\n so, se, sc := @K_c3(itoa(i)) | @K_c4()\n t += sc\n print(so)\n}\nprint(t)\n", n))
		add("depth", "a := 1\n"+strings.Repeat("if a == 1 {\n", n)+"@K_p(\"x y\")\nso, se, sc := @K_c2(\"d\")\nprint(so)\nprint(sc)\n"+strings.Repeat("}\n", n))
	}
}

// scaleTexts: long texts and texts used many times.
func (c *Ctx) scaleTexts() {
	plain := func(v string) []namedWorld {
		return []namedWorld{{"", func(*Atoms) *WorldModel { return dataWorld(v, v+"\n") }}}
	}
	for _, n := range scaleSizes("C08", !c.quick()) {
		for i, h := range []string{" ", "\"", "'", "\\", "$x", "`", "*", "a  ", "\t", "-n ", "%", ";", "\n", "é", "${a}"} {
			v := strings.Repeat(h, n)
			for _, u := range append(append([]schema{}, strUses...), strUses2...) {
				if n != 12 && c.quick() && u.key != strUses[0].key {
					continue
				}
				k := fmt.Sprintf("scale/%s/%d/%d", u.key, i, n)
				c.program("lit/"+k, fmt.Sprintf("v := %q\n", v)+u.src, progOpt{worlds: plain("reply")})
				if !strings.HasSuffix(h, "\n") {
					c.program("file/"+k, "v := read(\"in.txt\")\n"+u.src, progOpt{worlds: plain(v)})
					c.program("stdin/"+k, "v := input()\n"+u.src, progOpt{worlds: plain(v)})
				}
			}
			lit := fmt.Sprintf("%q", h+"x")
			all := func(sep, f string) string {
				return joinN(n, sep, func(k int) string { return strings.NewReplacer("%v", lit, "%i", fmt.Sprint(k)).Replace(f) })
			}
			for _, s := range []schema{
				{"concat", "s := " + all(" + ", "%v") + "\nprint(s)\nprint(len(s))\n"},
				{"vars", all("", "v%i := %v\n") + "print(" + all(", ", "v%i") + ")\n"},
				{"args", "func f(" + all(", ", "p%i string") + ") string {\n print(" + all(", ", "p%i") + ")\n return " + all(" + ", "p%i") + "\n}\nprint(f(" + all(", ", "%v") + "))\n"},
				{"results", "func f() (" + all(", ", "string") + ") {\n return " + all(", ", "%v") + "\n}\n" + all(", ", "v%i") + " := f()\nprint(" + all(", ", "v%i") + ")\n"},
				{"elements", "s := []string{" + all(", ", "%v") + "}\nfor i, e := range s {\n print(i, e)\n}\ns[" + fmt.Sprint(n) + "] = s[" + fmt.Sprint(n-1) + "]\nprint(s[" + fmt.Sprint(n) + "])\n"},
				{"cases", "v := " + lit + "\nswitch v + \"!\" {\n" + all("", "case %v + \"%i\":\n print(%i)\n") + "case " + lit + " + \"!\":\n print(\"hit\")\n}\n"},
				{"build", "s := \"\"\nfor i := 0; i < " + fmt.Sprint(n) + "; i++ {\n s += " + lit + "\n}\nprint(s)\nprint(len(s))\n"},
				{"printargs", "print(" + all(", ", "%v") + ")\n"},
				{"prog", "@K_prog(" + all(", ", "%v") + ")\n"},
			} {
				c.program(fmt.Sprintf("scale/many/%s/%d/%d", s.key, i, n), s.src, progOpt{worlds: plain("reply")})
			}
		}
	}
}

// scaleLayout: much blank space, many lines and comments.
func (c *Ctx) scaleLayout(forms []schema) {
	for i, s := range forms {
		s := s
		for k, w := range []string{"indent", "tabs", "blanks", "trailing", "lines", "leading", "comments", "commentlines", "longcomment", "blockcomments"} {
			for ni, n := range []int{9, 10, 16, 33, 65, 101, 130, 260} {
				if c.quick() && (i+k*3+ni)%12 != 0 {
					continue
				}
				kind := fmt.Sprintf("many %s %d", w, n)
				c.do("scale/"+s.key+"/"+kind, func() { c.layoutLex("scale/"+s.key+"/"+kind, s.src, []string{kind}, 0, n < 40) })
			}
		}
	}
}

// scaleLex: long tokens, many tokens, far positions.
func (c *Ctx) scaleLex() {
	sizes := []int{8, 9, 10, 11, 15, 16, 17, 31, 32, 33, 63, 64, 65, 99, 100, 101, 127, 128, 129, 255, 256, 257, 300}
	if !c.quick() {
		sizes = append(sizes, 511, 512, 513, 999, 1000, 1001, 1023, 1024, 1025, 2048)
	}
	for _, n := range sizes {
		n := n
		rep := func(s string) string { return strings.Repeat(s, n) }
		for i, s := range []string{
			rep("a"), rep("_"), rep("a1"), "x" + rep("0"), rep("A") + " b", "for" + rep("x"), rep("true"), rep("nil"),
			"\"" + rep("a") + "\" x", "\"" + rep(" ") + "\" x", "\"" + rep("\\n") + "\" x", "\"" + rep("\\\\") + "\" x", "\"" + rep("\\\"") + "\" x", "\"" + rep("é") + "\" x", "\"" + rep("`") + "\" x", "\"" + rep("//") + "\" x", "\"" + rep("\\x41") + "\" x", "\"" + rep("a"), "\"" + rep("\\\\") + "\\\"",
			"`" + rep("a") + "` x", "`" + rep("\n") + "` x", "`" + rep("a\n") + "` x\ny", "`" + rep("\"") + "` x", "`" + rep("\\") + "` x", "`" + rep("a"), "`" + rep("\n"),
			rep(" ") + "x", rep("\t") + "x", rep("\n") + "x", rep("\r\n") + "x", rep("\n ") + "x y", rep(" \n") + "x", "x" + rep(" ") + "y", "x" + rep("\n") + "y\nz", "x" + rep(" "), "x" + rep("\n"),
			rep("/**/") + "x", "/*" + rep("*") + "/x", "/*" + rep("a") + "*/x", "/*" + rep("\n") + "*/x y", "/*" + rep("a\n") + "*/ x\ny", rep("/*\n*/") + "x", rep("/*a*/ ") + "x", "/*" + rep("/*") + "*/x", "/*" + rep("/") + "*/x", "/*" + rep("a"), rep("//c\n") + "x", "//" + rep("c") + "\nx", "//" + rep("/") + "\nx", "x //" + rep("c"), rep("x // c\n") + "y",
			rep("x "), rep("x\n"), rep("1 "), rep("1\n"), rep("-1 "), rep("1-1 "), rep("(") + rep(")"), rep("{\n") + rep("}\n"), rep("[]"), rep("\"\" "), rep("\"a\"") + "x", rep("``") + "x", rep("`a`\n") + "x", rep("+"), rep("- "), rep("-"), rep("="), rep("!"), rep("<"), rep(":="), rep("&&"), rep("|"), rep("."), rep("@"), rep(", "), rep("a.b"), rep("a, ") + "b", rep("if x {\n"), rep("x := \"s\" + 1 // c\n"), rep("x+1*y/2%z-3 "), rep("var x int = 1\n") + "print(x)",
			rep("x") + " \x00", rep("\n") + "\x00", rep("\n") + "\"", rep("x ") + "`", rep("/**/") + "/*",
		} {
			c.lexOne(fmt.Sprintf("scale/%d/%d", i, n), s)
		}
		if n <= 18 {
			c.lexOne(fmt.Sprintf("scale/digits/%d", n), rep("1")+" x")
			c.lexOne(fmt.Sprintf("scale/digits/-/%d", n), "-"+rep("9")+" x")
		}
		c.lexOne(fmt.Sprintf("scale/zeros/%d", n), rep("0")+"7 x")
	}
}
