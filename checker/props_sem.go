package main

import (
	"fmt"
	"strings"
)

// ---------------------------------------------------------------- C01-C05: program semantics

type schema struct{ key, src string }

func vars(ss ...string) string { return strings.Join(ss, "\n") + "\n" }

// c01Schemas enumerates the scalar fragment systematically.
func c01Schemas() []schema {
	var r []schema
	add := func(k, s string, a ...any) { r = append(r, schema{k, fmt.Sprintf(s, a...)}) }
	ints := []string{"+", "-", "*", "/", "%"}
	// literals and printing
	for _, v := range []string{"0", "1", "7", "-1", "-42", "2147483647", "2147483648", "9223372036854775807", "4294967296", "-9223372036854775808", "-2147483649", "-2147483648", "#k", "true", "false", `"x"`, `""`, `"a b"`, "`raw`", "nil"} {
		if v == "nil" {
			add("lit/print/nil", "var e error\nprint(e)\ne = nil\nprint(e == nil)\n")
			continue
		}
		add("lit/print/"+v, "print(%s)\n", v)
		add("lit/def/"+v, "x := %s\nprint(x)\nvar y %s = x\nprint(y, x)\n", v, litType(v))
	}
	// every pair of arithmetic operators in every grouping
	for _, o1 := range ints {
		for _, kind := range []string{"vv", "vl", "lv", "ll"} {
			x, y := "a", "b"
			if kind[0] == 'l' {
				x = "17"
			}
			if kind[1] == 'l' {
				y = "5"
			}
			add("arith1/"+o1+kind, "a := #a\nb := #b\nprint(%s %s %s)\nc := %s %s %s\nprint(c)\n", x, o1, y, x, o1, y)
			for _, lits := range [][2]string{{"-17", "5"}, {"17", "-5"}, {"-17", "-5"}, {"3", "7"}, {"0", "4"}} {
				add("arith1c/"+o1+kind+lits[0]+","+lits[1], "a := %s\nb := %s\nprint(a %s b, %s %s b)\n", lits[0], lits[1], o1, lits[0], o1)
			}
		}
		for _, o2 := range ints {
			add("arith2/"+o1+o2, "a := #a\nb := #b\nc := #c\nprint(a %s b %s c)\nprint(a %s (b %s c))\nprint((a %s b) %s c)\n", o1, o2, o1, o2, o1, o2)
			add("arith2c/"+o1+o2, "a := 50\nb := 7\nc := 3\nprint(a %s b %s c)\nprint(a %s (b %s c))\nprint((a %s b) %s c)\nprint(100 %s 9 %s 4)\n", o1, o2, o1, o2, o1, o2, o1, o2)
			for _, o3 := range ints {
				add("arith3/"+o1+o2+o3, "a := 97\nb := 11\nc := 5\nd := 3\nprint(a %s b %s c %s d)\nprint(a %s (b %s c) %s d)\nprint((a %s b) %s (c %s d))\nprint(a %s b %s (c %s d))\n", o1, o2, o3, o1, o2, o3, o1, o2, o3, o1, o2, o3)
			}
		}
	}
	add("arith/deep", "a := #a\nprint(((((a + 1) * 2) - 3) * a) + ((a)))\nprint(-1 - -2, 5 - -5, 3 * -4)\n")
	add("arith/extreme", "a := 9223372036854775806\nb := -9223372036854775808\na++\nprint(a, b, a == 9223372036854775807, b == -9223372036854775808, b < a, a > b, a != b, b <= -9223372036854775807)\nprint(b + 1, b / 2, b %% 7, a / 2, a %% 10, a - 1, a + b, b + a)\nfunc f(x int) int {\n x -= 1\n return x\n}\nprint(f(a), f(-9223372036854775807), f(4294967296), f(-2147483648))\nc := 3037000499\nprint(c * c, c * -3, 4294967296 * 2147483647)\nl := []int{-9223372036854775808, 9223372036854775807}\nprint(l[0], l[1], itoa(l[0]) + itoa(a))\nswitch l[1] {\ncase -9223372036854775808:\n print(\"min\")\ncase 9223372036854775807:\n print(\"max\")\n}\n")
	add("arith/chain", "a := #a\nprint(a - 1 - 2 - 3, a + 1 + 2 + 3, 2 * 3 * 4, 1000 / 10 / 5, 100 %% 7 %% 4)\n")
	// comparisons
	cmps := []string{"==", "!=", "<", "<=", ">", ">="}
	for _, o := range cmps {
		add("cmp/int/"+o, "a := #a\nb := #b\nprint(a %s b, a %s 3, 3 %s b, #l %s a)\nc := a %s b\nprint(c)\nif a %s b {\n print(\"yes\")\n} else {\n print(\"no\")\n}\n", o, o, o, o, o, o)
		for _, p := range [][2]string{{"9", "10"}, {"10", "9"}, {"-1", "1"}, {"5", "5"}, {"-2", "-10"}, {"100", "99"}, {"2147483647", "-1"}} {
			add("cmp/intc/"+o+p[0]+","+p[1], "a := %s\nb := %s\nprint(a %s b)\nif a %s b {\n print(\"y\")\n}\nx := %s %s b\nprint(x)\n", p[0], p[1], o, o, p[0], o)
		}
		for _, o2 := range ints {
			add("cmp/arith/"+o+o2, "a := #a\nb := #b\nprint(a %s b %s a, a %s b %s 2)\n", o2, o, o, o2)
		}
		if o == "==" || o == "!=" {
			add("cmp/bool/"+o, "a := #a > 1\nb := #b > 1\nprint(a %s b, a %s true, false %s b)\nif a %s b {\n print(\"yes\")\n}\n", o, o, o, o)
			for _, p := range [][2]string{{`"x"`, `"x"`}, {`"x"`, `"y"`}, {`""`, `""`}, {`""`, `"a"`}, {`"a"`, `""`}, {`"a b"`, `"a b"`}, {`"10"`, `"9"`}, {`"01"`, `"1"`}, {`"1"`, `"1"`}} {
				add("cmp/str/"+o+p[0]+p[1], "a := %s\nb := %s\nprint(a %s b, a %s %s, %s %s b)\nif a %s b {\n print(\"yes\")\n} else {\n print(\"no\")\n}\n", p[0], p[1], o, o, p[1], p[0], o, o)
			}
			add("cmp/strsym/"+o, "a := \"\\x01a\\x01\"\nb := \"\\x01b\\x01\"\nprint(a %s b, a %s \"lit\", a + \"x\" %s \"x\" + b)\n", o, o, o)
		}
	}
	// logic: both operators in every combination, with negation and grouping
	bs := []string{"a", "b", "c"}
	for _, o1 := range []string{"&&", "||"} {
		add("logic1/"+o1, "a := #a == 1\nb := #b == 1\nprint(a %s b, a %s true, false %s b, !a %s b, a %s !b, !(a %s b))\n", o1, o1, o1, o1, o1, o1)
		for _, o2 := range []string{"&&", "||"} {
			for _, neg := range []string{"", "!"} {
				add("logic2/"+o1+o2+neg, "a := #a == 1\nb := #b == 1\nc := #c == 1\nprint(a %s %sb %s c)\nprint(a %s %s(b %s c))\nprint(%s(a %s b) %s c)\nif %sa %s b %s c {\n print(\"t\")\n} else {\n print(\"f\")\n}\n", o1, neg, o2, o1, neg, o2, neg, o1, o2, neg, o1, o2)
			}
			add("logic2cmp/"+o1+o2, "a := #a\nprint(a < 3 %s a > 5 %s a == 4)\nif a < 3 %s (a > 5 %s a == 4) {\n print(\"t\")\n}\n", o1, o2, o1, o2)
			for _, o3 := range []string{"&&", "||"} {
				add("logic3/"+o1+o2+o3, "a := #a == 1\nb := #b == 1\nc := #c == 1\nd := #d == 1\nprint(a %s b %s c %s d)\nprint(a %s b %s (c %s d))\nprint((a %s b) %s (c %s d))\nprint(a %s (b %s c) %s d)\n", o1, o2, o3, o1, o2, o3, o1, o2, o3, o1, o2, o3)
			}
		}
	}
	_ = bs
	add("logic/not", "a := #a == 1\nb := !a\nprint(b, !b, !(!a), !true, !false)\nif !a {\n print(\"n\")\n}\nfor !b && #c == 2 {\n print(\"l\")\n b = true\n}\n")
	// strings
	add("str/concat", "a := \"\\x01a\\x01\"\nb := \"x\"\nprint(a + b, b + a, a + a, \"p\" + a + \"q\", a + \"\" + b)\nc := a + \" \" + b\nprint(c)\nc += \"t\"\nprint(c)\nc += a + b\nprint(c)\n")
	add("str/empty", "a := \"\"\nvar b string\nprint(a == b, a + b, a == \"\", b)\nc := a + b + \"x\"\nprint(c)\nprint(a)\nprint(\"\", \"\")\nprint(a, \"x\", b)\n")
	add("itoa", "a := #a\ns := itoa(a)\nprint(s, itoa(5), itoa(a + 1), \"n=\" + itoa(a * 2) + \"!\")\nif itoa(a) == \"7\" {\n print(\"seven\")\n}\n")
	// definitions
	add("def/zero", "var i int\nvar b bool\nvar s string\nprint(i, b, s)\ni++\nb = !b\ns += \"x\"\nprint(i, b, s)\n")
	add("def/multi", "var a, b int\nvar c, d string\nprint(a, b, c, d)\ne, f := 1, \"x\"\nvar g, h int = 3, 4\nprint(e, f, g, h)\ng, i := 9, true\nprint(g, i)\nvar j, k = \"s\", false\nprint(j, k)\n")
	add("def/mixed", "a := 1\nb, a := 2, 3\nprint(a, b)\n")
	add("def/error", "var e error\nif e == nil {\n print(\"none\")\n}\nvar f error = nil\nprint(f == nil)\n")
	// assignments
	for _, o := range ints {
		add("assign/"+o, "a := #a\nb := #b\na %s= b\nprint(a, b)\na %s= 3\nprint(a)\na %s= b + 1\nprint(a)\na %s= a\nprint(a)\n", o, o, o, strings.Replace(strings.Replace(o, "/", "+", 1), "%", "-", 1))
		add("assignc/"+o, "a := 100\nb := 7\na %s= b - 2 * 3\nprint(a)\na %s= 3 + 4\nprint(a)\na %s= -3\nprint(a)\nfor i := 0; i < 2; i++ {\n a %s= 2\n print(a)\n}\n", o, o, o, o)
	}
	add("assign/incdec", "a := #a\na++\nprint(a)\na--\na--\nprint(a)\nif a > 0 {\n a++\n} else {\n a--\n}\nprint(a)\n")
	add("assign/self", "a := #a\na = a\na = a + a\nprint(a)\nb := a > 3\nb = !b\nprint(b)\ns := \"x\"\ns = s + s\nprint(s)\n")
	add("assign/multi", "a, b := 1, 2\na, b = 3, 4\nprint(a, b)\na, b = b, a\nprint(a, b)\na, b = a + b, a - b\nprint(a, b)\n")
	add("assign/boolval", "a := #a\nb := a == 1\nc := b && a < 5\nd := b || c\nprint(b, c, d)\nb = c == d\nprint(b)\n")
	// panic and exit
	add("panic/top", "print(\"a\")\npanic(\"boom\")\n")
	add("panic/after", "a := #a\nif a > 3 {\n panic(\"big \" + itoa(a))\n}\nprint(\"ok\")\n")
	add("panic/loop", "for i := 0; i < 3; i++ {\n print(i)\n if i == #k {\n  panic(\"at\")\n }\n}\nprint(\"end\")\n")
	add("panic/func", "func f(x int) int {\n if x > 1 {\n  panic(\"x\")\n }\n return x\n}\nprint(f(1))\nprint(f(#a))\nprint(\"end\")\n")
	add("panic/switch", "switch #a {\ncase 1:\n panic(\"one\")\ndefault:\n print(\"d\")\n}\nprint(\"end\")\n")
	add("panic/nested", "func g() {\n panic(\"deep\")\n}\nfunc f() {\n g()\n print(\"no\")\n}\nif #a == 1 {\n f()\n}\nprint(\"end\")\n")
	// if chains
	for n := 0; n <= 3; n++ {
		for _, els := range []bool{false, true} {
			var b strings.Builder
			b.WriteString("a := #a\nif a == 0 {\n print(\"b0\")\n}")
			for i := 1; i <= n; i++ {
				fmt.Fprintf(&b, " else if a == %d {\n print(\"b%d\")\n}", i, i)
			}
			if els {
				b.WriteString(" else {\n print(\"else\")\n}")
			}
			b.WriteString("\nprint(\"end\")\n")
			add(fmt.Sprintf("if/%d/%v", n, els), "%s", b.String())
		}
	}
	add("if/overlap", "a := #a\nif a > 5 {\n print(\"gt5\")\n} else if a > 3 {\n print(\"gt3\")\n} else if a > 1 {\n print(\"gt1\")\n} else {\n print(\"small\")\n}\n")
	add("if/mutates", "a := 1\nif a == 1 {\n a = 2\n} else if a == 2 {\n a = 3\n}\nprint(a)\n")
	add("if/empty", "a := #a\nif a == 1 {\n}\nif a == 2 {\n} else {\n print(\"e\")\n}\nif a == 3 {\n print(\"t\")\n} else {\n}\nif a == 4 {\n} else if a == 5 {\n}\nprint(\"end\")\n")
	add("if/const", "if true {\n print(\"t\")\n}\nif false {\n print(\"f\")\n} else {\n print(\"nf\")\n}\nif !true || true {\n print(\"x\")\n}\n")
	add("if/scope", "if #a == 1 {\n x := 5\n print(x)\n} else {\n x := \"s\"\n print(x)\n}\nx := true\nprint(x)\n")
	// nested branches
	forms := map[string]string{
		"if":     "if %s {\n%s\n}",
		"ifelse": "if %s {\n%s\n} else {\n print(\"el\")\n}",
		"inelse": "if !(%s) {\n print(\"th\")\n} else {\n%s\n}",
		"elif":   "if #z == 9 {\n print(\"z\")\n} else if %s {\n%s\n} else {\n print(\"el\")\n}",
		"switch": "switch {\ncase %s:\n%s\ndefault:\n print(\"df\")\n}",
		"swdef":  "switch {\ncase !(%s):\n print(\"c\")\ndefault:\n%s\n}",
	}
	for _, k1 := range sortedKeys(forms) {
		for _, k2 := range sortedKeys(forms) {
			inner := fmt.Sprintf(forms[k2], "#b == 2", " print(\"in\")")
			add("nest/"+k1+"/"+k2, "%s\nprint(\"end\")\n", fmt.Sprintf(forms[k1], "#a == 1", inner+"\nprint(\"after\")"))
			for _, k3 := range sortedKeys(forms) {
				in3 := fmt.Sprintf(forms[k3], "#c == 3", " print(\"in3\")")
				add("nest3/"+k1+"/"+k2+"/"+k3, "%s\nprint(\"end\")\n", fmt.Sprintf(forms[k1], "#a == 1", fmt.Sprintf(forms[k2], "#b == 2", in3)))
			}
		}
	}
	// sequences of branches
	for _, k1 := range sortedKeys(forms) {
		for _, k2 := range sortedKeys(forms) {
			add("seq/"+k1+"/"+k2, "%s\n%s\nprint(\"end\")\n", fmt.Sprintf(forms[k1], "#a == 1", " print(\"one\")"), fmt.Sprintf(forms[k2], "#b == 2", " print(\"two\")"))
		}
	}
	// switch
	for _, t := range []string{"int", "string", "bool", "empty"} {
		tag, c1, c2, dec := " v", "1", "2", "v := #a\n"
		switch t {
		case "string":
			c1, c2, dec = `"x"`, `"y"`, "v := \"\\x01a\\x01\"\n"
		case "bool":
			c1, c2, dec = "true", "false", "v := #a == 1\n"
		case "empty":
			tag, c1, c2, dec = "", "v == 1", "v > 1", "v := #a\n"
		}
		for n := 1; n <= 2; n++ {
			for _, d := range []bool{false, true} {
				b := dec + "switch" + tag + " {\ncase " + c1 + ":\n print(\"c1\")\n"
				if n == 2 {
					b += "case " + c2 + ":\n print(\"c2\")\n"
				}
				if d {
					b += "default:\n print(\"df\")\n"
				}
				b += "}\nprint(\"end\")\n"
				add(fmt.Sprintf("switch/%s/%d/%v", t, n, d), "%s", b)
			}
		}
	}
	add("switch/expr", "a := #a\nb := #b\nswitch a + 1 {\ncase b:\n print(\"b\")\ncase b * 2:\n print(\"2b\")\ncase 5:\n print(\"5\")\ndefault:\n print(\"df\")\n}\n")
	add("switch/dup", "switch #a {\ncase 1:\n print(\"first\")\ncase 1:\n print(\"second\")\n}\n")
	add("switch/onlydefault", "switch #a {\ndefault:\n print(\"df\")\n}\nswitch {\ndefault:\n print(\"df2\")\n}\n")
	add("switch/emptybodies", "switch #a {\ncase 1:\ncase 2:\n print(\"2\")\ndefault:\n}\nprint(\"end\")\n")
	add("switch/mutate", "a := 1\nswitch a {\ncase 1:\n a = 2\n print(\"1\")\ncase 2:\n print(\"2\")\n}\nprint(a)\n")
	add("switch/nested", "switch #a {\ncase 1:\n switch #b {\n case 1:\n  print(\"11\")\n default:\n  print(\"1d\")\n }\n print(\"after\")\ncase 2:\n print(\"2\")\ndefault:\n switch {\n case #b == 7:\n  print(\"d7\")\n }\n}\nprint(\"end\")\n")
	add("switch/true", "a := #a\nswitch true {\ncase a == 5:\n print(\"5\")\ncase a > 5:\n print(\"gt\")\ndefault:\n print(\"lt\")\n}\nswitch false {\ncase a == 5:\n print(\"not5\")\n}\n")
	// loops
	loops := loopForms()
	for _, k := range sortedKeys(loops) {
		add("loop/"+k, "%s\nprint(\"end\")\n", fmt.Sprintf(loops[k], "i", " print(\"b\", i)"))
		for _, jmp := range []string{"break", "continue"} {
			for _, cf := range sortedKeys(forms) {
				body := fmt.Sprintf(forms[cf], "i == 1", " print(\"j\")\n "+jmp)
				add("loop/"+k+"/"+jmp+"/"+cf, "%s\nprint(\"end\")\n", fmt.Sprintf(loops[k], "i", body+"\nprint(\"b\", i)"))
			}
			add("loop/"+k+"/"+jmp+"/last", "%s\nprint(\"end\")\n", fmt.Sprintf(loops[k], "i", "print(\"b\", i)\n"+jmp))
			add("loop/"+k+"/"+jmp+"/sym", "%s\nprint(\"end\")\n", fmt.Sprintf(loops[k], "i", "if i == #q {\n "+jmp+"\n}\nprint(\"b\", i)"))
		}
		for _, k2 := range sortedKeys(loops) {
			in := fmt.Sprintf(loops[k2], "j", " print(i, j)")
			add("loop2/"+k+"/"+k2, "%s\nprint(\"end\")\n", fmt.Sprintf(loops[k], "i", "print(\"o\", i)\n"+in+"\nprint(\"p\", i)"))
			add("loopseq/"+k+"/"+k2, "%s\n%s\nprint(\"end\")\n", fmt.Sprintf(loops[k], "i", " print(i)"), fmt.Sprintf(loops[k2], "j", " print(j)"))
			for _, jmp := range []string{"break", "continue"} {
				inj := fmt.Sprintf(loops[k2], "j", "if j == 1 {\n "+jmp+"\n}\nprint(i, j)")
				add("loop2/"+k+"/"+k2+"/inner-"+jmp, "%s\nprint(\"end\")\n", fmt.Sprintf(loops[k], "i", inj+"\nprint(\"p\", i)"))
				add("loop2/"+k+"/"+k2+"/outer-"+jmp, "%s\nprint(\"end\")\n", fmt.Sprintf(loops[k], "i", in+"\nif i == 1 {\n "+jmp+"\n}\nprint(\"p\", i)"))
				add("loop2/"+k+"/"+k2+"/before-"+jmp, "%s\nprint(\"end\")\n", fmt.Sprintf(loops[k], "i", "if i == 1 {\n "+jmp+"\n}\n"+in))
			}
		}
		// loop in branch, branch in loop
		for _, cf := range sortedKeys(forms) {
			add("loopin/"+cf+"/"+k, "%s\nprint(\"end\")\n", fmt.Sprintf(forms[cf], "#a == 1", fmt.Sprintf(loops[k], "i", " print(i)")+"\nprint(\"x\")"))
			add("branchin/"+k+"/"+cf, "%s\nprint(\"end\")\n", fmt.Sprintf(loops[k], "i", fmt.Sprintf(forms[cf], "i == #a", " print(\"hit\", i)")+"\nprint(\"x\", i)"))
		}
	}
	add("for/cond-sym", "n := 0\nfor n < 3 && #a > n {\n print(n)\n n++\n}\nprint(\"end\", n)\n")
	add("for/post-assign", "for i := 1; i < 20; i *= 2 {\n print(i)\n}\nfor i := 10; i > 0; i -= 4 {\n print(i)\n}\nfor i := 0; i < 3; i = i + 1 {\n if i == 1 {\n  continue\n }\n print(i)\n}\n")
	add("for/noinit", "i := 0\nfor ; i < 2; i++ {\n print(i)\n}\nprint(i)\n")
	add("for/nopost", "for i := 0; i < 3; {\n print(i)\n i++\n}\n")
	add("for/nocond", "for i := 0; ; i++ {\n if i > 2 {\n  break\n }\n print(i)\n}\n")
	add("for/allempty", "n := 0\nfor ; ; {\n n++\n if n > 2 {\n  break\n }\n print(n)\n}\n")
	add("for/never", "for false {\n print(\"no\")\n}\nfor i := 5; i < 3; i++ {\n print(\"no\")\n}\nprint(\"end\")\n")
	add("for/emptybody", "for i := 0; i < 3; i++ {\n}\nn := 3\nfor n > 5 {\n}\nprint(\"end\", n)\n")
	add("for/condexpr", "b := true\nn := 0\nfor b {\n n++\n b = n < 3\n}\nprint(n)\nfor !b || n < 5 {\n n++\n b = true\n}\nprint(n)\n")
	add("for/varreuse", "for i := 0; i < 2; i++ {\n print(i)\n}\nfor i := 5; i < 7; i++ {\n print(i)\n}\ni := \"s\"\nprint(i)\n")
	add("for/bodyvar", "for i := 0; i < 2; i++ {\n var x int\n print(x)\n x = i + 5\n print(x)\n s := \"q\"\n s += \"r\"\n print(s)\n}\n")
	add("for/modifycounter", "for i := 0; i < 6; i++ {\n if i == 2 {\n  i = i + 2\n }\n print(i)\n}\n")
	add("for/three", "for i := 0; i < 2; i++ {\n for j := 0; j < 2; j++ {\n  for k := 0; k < 2; k++ {\n   if k == 1 && j == 0 {\n    continue\n   }\n   if i == 1 && j == 1 {\n    break\n   }\n   print(i, j, k)\n  }\n }\n}\nprint(\"end\")\n")
	add("for/three-seq", "for i := 0; i < 2; i++ {\n for j := 0; j < 2; j++ {\n  print(i, j)\n }\n for k := 0; k < 2; k++ {\n  print(i, k)\n  if k == 0 {\n   continue\n  }\n  break\n }\n}\nfor m := 0; m < 1; m++ {\n print(m)\n}\n")
	add("for/infunc-and-out", "func f(n int) int {\n t := 0\n for i := 0; i < n; i++ {\n  t += i\n }\n return t\n}\nfor i := 0; i < 3; i++ {\n print(f(i))\n}\n")
	add("for/callinloop", "func f(n int) {\n for j := 0; j < n; j++ {\n  print(\"f\", j)\n }\n}\nfor i := 0; i < 3; i++ {\n f(i)\n print(i)\n}\nfor {\n f(1)\n break\n}\n")
	add("for/callincond", "func f(n int) bool {\n for j := 0; j < n; j++ {\n  print(j)\n }\n return n < 2\n}\ni := 0\nfor f(i) {\n i++\n}\nfor k := 0; f(k); k++ {\n print(\"k\", k)\n}\n")
	// print
	add("print/many", "a := #a\nprint(a, \"x\", true, a + 1, a == 1, \"y z\")\nprint(\"one\")\nprint(1, 2, 3)\n")
	add("print/noargs-like", "print(\"\")\nprint(\"a\", \"\")\nprint(\"\", \"b\")\n")
	return r
}

func litType(v string) string {
	switch {
	case v == "true" || v == "false":
		return "bool"
	case v[0] == '"' || v[0] == '`':
		return "string"
	}
	return "int"
}

// loopForms: loops that run the body for 0, 1, 2 (verbs: counter name, body).
func loopForms() map[string]string {
	return map[string]string{
		"clause": "for %[1]s := 0; %[1]s < 3; %[1]s++ {\n%[2]s\n}",
		"cond":   "%[1]s := 0 - 1\nfor %[1]s < 2 {\n %[1]s++\n%[2]s\n}",
		"inf":    "%[1]s := 0 - 1\nfor {\n %[1]s++\n if %[1]s > 2 {\n  break\n }\n%[2]s\n}",
		"down":   "for %[1]s := 2; %[1]s >= 0; %[1]s-- {\n%[2]s\n}",
		"range":  "%[1]ss := []int{4, 5, 6}\nfor %[1]s, %[1]sv := range %[1]ss {\n print(%[1]sv)\n%[2]s\n}",
		"srange": "%[1]st := \"xyz\"\nfor %[1]s, %[1]sc := range %[1]st {\n print(%[1]sc)\n%[2]s\n}",
		"nopost": "for %[1]s := 0 - 1; %[1]s < 2; {\n %[1]s++\n%[2]s\n}",
	}
}

func init() {
	checks["C01"] = &propCheck{level: "translation_validation",
		rule: "every schema of the scalar fragment is transpiled by abstract interpretation of the compiler's SSA; the emitted Bash template is interpreted in the Bash model and compared (stdout, exit status, stderr empty) with the reference meaning on every combination of the values' relations",
		run: func(c *Ctx) {
			for _, s := range c01Schemas() {
				c.program(s.key, s.src, progOpt{})
			}
			for _, s := range append(ctlSchemas(c.n(3, 4)), ctlLeave(c.n(2, 3), "panic")...) {
				c.program(s.key, s.src, progOpt{})
			}
			for _, s := range scaleAll("C01", c.n(0, 1) == 1) {
				c.program(s.key, s.src, progOpt{})
			}
			n := c.n(600, 6000)
			for i := 1; i <= n; i++ {
				f := gfeat{Str: i%2 == 0, Loops: true, Switch: true, Sym: 1 + i%2, Size: 4 + i%6, Panic: i%5 == 0, SymStr: i % 3 / 2}
				c.program(fmt.Sprintf("gen/%d", i), genProgram(c.draw(i), f), progOpt{})
			}
		}}
}
