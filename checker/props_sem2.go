package main

import (
	"fmt"
	"strings"
)

// c02Schemas: functions, isolation, globals, returns.
func c02Schemas() []schema {
	var r []schema
	add := func(k, s string, a ...any) { r = append(r, schema{k, fmt.Sprintf(s, a...)}) }
	raw := func(k, s string) { r = append(r, schema{k, s}) }
	types := []string{"int", "bool", "string", "[]int", "[]string", "[]bool"}
	lit := map[string][2]string{"int": {"3", "#k"}, "bool": {"true", "false"}, "string": {`"p"`, `"q r"`}, "[]int": {"[]int{1, 2}", "[]int{9}"}, "[]string": {`[]string{"u"}`, `[]string{"v", "w"}`}, "[]bool": {"[]bool{true}", "[]bool{false, true}"}}
	show := func(t, v string) string {
		if t[0] == '[' {
			return fmt.Sprintf("print(len(%s), %s[0])", v, v)
		}
		return fmt.Sprintf("print(%s)", v)
	}
	// parameters of every type in every position
	for _, t1 := range types {
		add("param1/"+t1, "func f(p %s) {\n %s\n}\nf(%s)\nv := %s\nf(v)\nf(%s)\n%s\n", t1, show(t1, "p"), lit[t1][0], lit[t1][1], lit[t1][1], show(t1, "v"))
		for _, t2 := range types {
			add("param2/"+t1+","+t2, "func f(p %s, q %s) {\n %s\n %s\n}\nv := %s\nw := %s\nf(%s, %s)\nf(v, w)\nf(%s, w)\n", t1, t2, show(t1, "p"), show(t2, "q"), lit[t1][0], lit[t2][1], lit[t1][1], lit[t2][0], lit[t1][0])
			// returned values of every pair of types
			add("ret2/"+t1+","+t2, "func f(p %s, q %s) (%s, %s) {\n return q, p\n}\na, b := f(%s, %s)\n%s\n%s\na, b = f(b, a)\n%s\n%s\n", t2, t1, t1, t2, lit[t2][0], lit[t1][1], show(t1, "a"), show(t2, "b"), show(t1, "a"), show(t2, "b"))
		}
		add("ret1/"+t1, "func f() %s {\n return %s\n}\nfunc g(p %s) %s {\n return p\n}\na := f()\n%s\nb := g(a)\n%s\nb = g(f())\n%s\nvar c %s = g(g(b))\n%s\n", t1, lit[t1][0], t1, t1, show(t1, "a"), show(t1, "b"), show(t1, "b"), t1, show(t1, "c"))
		add("local/"+t1, "func f(n int) {\n var x %s\n if n > 0 {\n  x = %s\n }\n print(n)\n if n > 0 {\n  %s\n }\n}\nf(1)\nf(0)\nx := %s\nf(1)\n%s\n", t1, lit[t1][0], show(t1, "x"), lit[t1][1], show(t1, "x"))
		add("global/"+t1, "g := %s\nfunc set(v %s) {\n g = v\n}\nfunc get() %s {\n return g\n}\nset(%s)\n%s\nh := get()\n%s\ng = %s\nh = get()\n%s\n", lit[t1][0], t1, t1, lit[t1][1], show(t1, "g"), show(t1, "h"), lit[t1][0], show(t1, "h"))
	}
	// arity
	for n := 0; n <= 6; n++ {
		var ps, as, rs, vs []string
		for i := 0; i < n; i++ {
			ps = append(ps, fmt.Sprintf("p%d int", i))
			as = append(as, fmt.Sprintf("#a%d", i))
			rs = append(rs, fmt.Sprintf("p%d", n-1-i))
			vs = append(vs, fmt.Sprintf("v%d", i))
		}
		add(fmt.Sprintf("arity/%d", n), "func f(%s) {\n print(\"f\", %s)\n}\nf(%s)\n", strings.Join(ps, ", "), strings.Join(append(rs, "0"), ", "), strings.Join(as, ", "))
		if n >= 2 {
			add(fmt.Sprintf("retarity/%d", n), "func f(%s) (%s) {\n return %s\n}\n%s := f(%s)\nprint(%s)\n%s = f(%s)\nprint(%s)\nvar %s = f(%s)\nprint(%s)\nf(%s)\n", strings.Join(ps, ", "), strings.TrimSuffix(strings.Repeat("int, ", n), ", "), strings.Join(rs, ", "),
				strings.Join(vs, ", "), strings.Join(as, ", "), strings.Join(vs, ", "), strings.Join(vs, ", "), strings.Join(vs, ", "), strings.Join(vs, ", "),
				strings.ReplaceAll(strings.Join(vs, ", "), "v", "w"), strings.Join(as, ", "), strings.ReplaceAll(strings.Join(vs, ", "), "v", "w"), strings.Join(as, ", "))
		}
	}
	// isolation: every role a name can play, all using the same spelling
	raw("iso/params", "func f(x int) int {\n x = x + 1\n return x\n}\nfunc g(x int) int {\n y := f(x)\n x = x + 100\n return x + y\n}\nx := #a\nprint(f(x), x)\nprint(g(x), x)\ny := 7\nprint(g(y), y, x)\n")
	raw("iso/locals", "func f() {\n x := 1\n x++\n print(x)\n}\nfunc g() {\n x := 10\n f()\n print(x)\n f()\n x = x + 1\n print(x)\n}\ng()\nx := 100\ng()\nf()\nprint(x)\n")
	raw("iso/types", "func f() {\n x := \"s\"\n print(x)\n}\nfunc g() {\n x := true\n f()\n print(x)\n}\nx := 5\nf()\ng()\nprint(x)\n")
	raw("iso/loopvar", "func f(n int) int {\n t := 0\n for i := 0; i < n; i++ {\n  t += i\n }\n return t\n}\nfor i := 0; i < 4; i++ {\n t := f(i)\n print(i, t)\n}\ni := 9\nt := f(3)\nprint(i, t)\n")
	raw("iso/rangevar", "func f(s []int) int {\n t := 0\n for i, v := range s {\n  t += v * i\n }\n return t\n}\na := []int{5, 6, 7}\nfor i, v := range a {\n print(i, v, f(a))\n}\n")
	raw("iso/paramlocalglobal", "func a(x int, y int) int {\n z := x - y\n x = y\n y = z\n return x * 10 + y\n}\nfunc b(y int, x int) int {\n z := a(x, y)\n x = x + z\n return x - y\n}\nfunc c(z int) int {\n x := b(z, z + 1)\n y := a(z, x)\n z = z + x + y\n return z\n}\nx := 1\ny := 2\nz := 3\nprint(a(x, y), x, y, z)\nprint(b(x, y), x, y, z)\nprint(c(z), x, y, z)\n")
	raw("iso/freshvar", "func f(k int) int {\n var n int\n n += k\n return n\n}\nprint(f(1))\nprint(f(2), f(3))\n")
	raw("iso/freshslice", "func f(k int) int {\n s := []int{}\n s[len(s)] = k\n s[len(s)] = k\n return len(s)\n}\nprint(f(1))\nprint(f(2), f(3))\nfunc g() []int {\n var s []int\n return s\n}\na := g()\nb := g()\na[0] = 4\nprint(len(a), len(b))\n")
	raw("iso/blocks", "func f(k int) {\n if k > 0 {\n  x := k\n  print(x)\n } else {\n  x := \"neg\"\n  print(x)\n }\n for i := 0; i < 2; i++ {\n  x := i * 10\n  print(x)\n }\n x := true\n print(x)\n}\nf(#a)\nx := 4\nf(1)\nprint(x)\n")
	raw("iso/helpers", "func f(x int) int {\n return x * 2 + 1\n}\nprint(1 + 2 * f(3 + 4) - f(5) * (f(1) + 6))\na := f(1) + f(2) * f(3)\nprint(a)\n")
	raw("iso/deep", "func a(x int) int {\n y := x + 1\n return y\n}\nfunc b(x int) int {\n y := a(x) + a(x + 10)\n return y + x\n}\nfunc c(x int) int {\n y := b(x) - b(a(x))\n x = a(y)\n return x + y\n}\nfunc d(x int) int {\n y := c(a(x))\n return c(y) + b(x) + a(x)\n}\nprint(d(#k))\nprint(a(b(c(d(1)))))\n")
	raw("iso/callinargs", "func add(x int, y int) int {\n return x + y\n}\nprint(add(add(1, 2), add(3, add(4, #a))))\nx := add(add(#a, #b), #c)\nprint(add(x, add(x, x)))\n")
	raw("iso/twoslices", "func put(s []int, v int) {\n n := len(s)\n s[n] = v\n}\na := []int{1}\nb := []int{}\nput(a, 5)\nput(b, 6)\nput(a, 7)\nprint(len(a), len(b), a[1], a[2], b[0])\n")
	// globals written in place
	for _, op := range []string{"g = g + 5", "g += 5", "g -= 2", "g *= 3", "g /= 2", "g %= 3", "g++", "g--", "g, h = h, g", "g, h = 8, g + 1", "g, h = two()", "g = one()", "g, l = 4, 5"} {
		for _, ctx := range []string{"%s", "if g > 0 {\n  %s\n }", "if g < 0 {\n } else {\n  %s\n }", "for i := 0; i < 2; i++ {\n  %s\n }", "switch g {\ncase 1:\ndefault:\n  %s\n }", "for i := 0; i < 2; i++ {\n  if i == 1 {\n   %s\n  }\n }"} {
			add("gwrite/"+op+"/"+oneLine(ctx), "g := 10\nh := 20\nfunc two() (int, int) {\n return g + 1, h + 1\n}\nfunc one() int {\n return 77\n}\nfunc f() {\n l := 1\n %s\n print(g, h, l)\n}\nf()\nprint(g, h)\nf()\nprint(g, h)\n", fmt.Sprintf(ctx, op))
		}
	}
	for _, op := range []string{"s = s + \"x\"", "s += \"y\"", "s = \"\"", "b = !b", "b = b && true", "b = false", "a[0] = 9", "a[len(a)] = 3", "a = []int{7}", "s, b = \"m\", true", "a, s = []int{4}, \"n\""} {
		add("gwrite2/"+op, "s := \"s\"\nb := true\na := []int{1}\nfunc f() {\n %s\n}\nf()\nprint(s, b, len(a), a[0])\nf()\nprint(s, b, len(a), a[0])\n", op)
	}
	raw("gwrite/viacallee", "g := 1\nfunc inc() {\n g++\n}\nfunc dbl() {\n inc()\n g = g * 2\n inc()\n}\ndbl()\nprint(g)\ninc()\ndbl()\nprint(g)\n")
	raw("gwrite/readback", "g := #a\nfunc f() int {\n g = g + 1\n return g\n}\nx := f()\ny := f()\nprint(x, y, g)\n")
	raw("gwrite/sibling", "g := 1\nfunc f() {\n g = 2\n}\nfunc h() int {\n g := 0\n g++\n return g\n}\nf()\nprint(g)\n")
	raw("gwrite/multireturn", "a := 1\nb := \"x\"\nfunc two(n int) (int, string) {\n return n, itoa(n)\n}\nfunc f() {\n a, b = two(5)\n}\nf()\nprint(a, b)\n")
	raw("gwrite/mixed", "a := 1\nfunc f() {\n c := 0\n a, c = 3, 4\n print(a, c)\n c, a = a, c\n print(a, c)\n}\nf()\nprint(a)\n")
	raw("gwrite/later", "func f(x int) int {\n v := x\n v++\n return v\n}\nv := 50\nprint(f(1), v)\nfunc g() int {\n v = v + 1\n return v\n}\nprint(g())\nprint(v)\n")
	raw("gwrite/slicealias", "g := []int{1, 2}\nfunc f(s []int) {\n s[0] = 10\n g[1] = 20\n s[2] = 30\n}\nf(g)\nprint(g[0], g[1], g[2], len(g))\n")
	// simultaneous assignment
	for _, v := range []string{"a, b = b, a", "a, b = b, a + b", "a, b, c = c, a, b", "a, b, c = b, c, a", "a, b = a + 1, a + 2", "a, c = c, c", "b, a = a, b"} {
		add("swap/top/"+v, "a := #a\nb := #b\nc := #c\n%s\nprint(a, b, c)\n", v)
		add("swap/func/"+v, "func f(a int, b int) {\n c := a * 2\n %s\n print(a, b, c)\n}\nf(#a, #b)\na := 1\nprint(a)\n", v)
		add("swap/global/"+v, "a := 1\nb := 2\nc := 3\nfunc f() {\n %s\n}\nf()\nprint(a, b, c)\nf()\nprint(a, b, c)\n", v)
		add("swap/loop/"+v, "a := 1\nb := 2\nc := 3\nfor i := 0; i < 3; i++ {\n %s\n print(a, b, c)\n}\n", v)
	}
	raw("swap/string", "a := \"x\"\nb := \"y z\"\na, b = b, a\nprint(a, b)\na, b = a + b, b + a\nprint(a, b)\nc, a := a, \"n\"\nprint(a, b, c)\n")
	raw("swap/bool", "a := true\nb := #k == 1\na, b = b, a\nprint(a, b)\na, b = !b, a && b\nprint(a, b)\n")
	raw("swap/slice", "a := []int{1}\nb := []int{2, 3}\na, b = b, a\nprint(len(a), len(b))\na[0] = 9\nprint(a[0], b[0])\n")
	raw("swap/elems", "a := []int{1, 2, 3}\nx, y := a[0], a[2]\nprint(x, y)\nx, y = a[1], x\nprint(x, y)\n")
	raw("swap/fib", "a, b := 0, 1\nfor i := 0; i < 8; i++ {\n a, b = b, a + b\n}\nprint(a, b)\n")
	raw("swap/defnew", "a := 1\na, b := 5, a\nprint(a, b)\nb, c := a, b\nprint(a, b, c)\n")
	raw("swap/gcd", "func gcd(a int, b int) int {\n for b != 0 {\n  a, b = b, a % b\n }\n return a\n}\nprint(gcd(48, 18), gcd(7, 3), gcd(5, 0))\n")
	// returns
	raw("ret/early", "func f(x int) int {\n if x > 5 {\n  return 1\n }\n for i := 0; i < 4; i++ {\n  if i == x {\n   return 10 + i\n  }\n }\n switch x {\n case 5:\n  return 50\n }\n return 0 - x\n}\nprint(f(#a))\nprint(f(7), f(2), f(5), f(-1))\n")
	raw("ret/fromloops", "func f(n int) int {\n for {\n  for i := 0; ; i++ {\n   if i > n {\n    return i\n   }\n  }\n }\n return -1\n}\nprint(f(0), f(3))\n")
	raw("ret/clobber", "func two(x int) (int, int) {\n return x, x + 1\n}\nfunc f(x int) (int, int) {\n a, b := two(x)\n c, d := two(b)\n return a + d, b + c\n}\na, b := f(1)\nc, d := f(a)\nprint(a, b, c, d)\na, c = f(d)\nprint(a, b, c, d)\n")
	raw("ret/callinret", "func one(x int) int {\n return x * 2\n}\nfunc f(x int) (int, int, int) {\n return one(x), x, one(one(x))\n}\na, b, c := f(#a)\nprint(a, b, c)\na, b, c = f(c)\nprint(c, b, a)\n")
	raw("ret/callinretglobal", "g := 0\nfunc nxt() int {\n g++\n return g\n}\nfunc f() (int, int, int) {\n return nxt(), nxt() * 10, nxt() * 100\n}\na, b, c := f()\nprint(a, b, c, g)\n")
	raw("ret/swapparams", "func sw(a int, b int) (int, int) {\n return b, a\n}\na, b := sw(1, 2)\nprint(a, b)\na, b = sw(a, b)\nprint(a, b)\nb, a = sw(a, b)\nprint(a, b)\n")
	raw("ret/mixedtypes", "func f(n int) (string, []int, bool) {\n s := []int{n, n + 1}\n return \"n\" + itoa(n), s, n > 2\n}\na, b, c := f(#a)\nprint(a, b[0], b[1], c)\nx, y, z := f(1)\nprint(a, x, len(y), z)\n")
	raw("ret/ignored", "func f(x int) int {\n print(\"f\", x)\n return x\n}\nfunc two() (int, int) {\n print(\"two\")\n return 1, 2\n}\nf(1)\ntwo()\nx := f(2)\ntwo()\nprint(x)\n")
	raw("ret/exprargs", "func f(a int, b bool, c string) string {\n if b {\n  return c + itoa(a)\n }\n return itoa(a) + c\n}\nx := #x\nprint(f(x + 1, x > 3, \"v\" + itoa(x)))\nprint(f(2 * 3, !true, f(1, true, \"z\")))\n")
	raw("ret/error", "func f(n int) (int, error) {\n if n > 3 {\n  return 0, \"too big\"\n }\n return n, nil\n}\nv, err := f(#a)\nif err != nil {\n print(\"err\", err)\n} else {\n print(v)\n}\n")
	raw("ret/slicealias", "func f(s []int) []int {\n s[0] = 5\n return s\n}\na := []int{1, 2}\nb := f(a)\nb[1] = 6\nprint(a[0], a[1], b[0], b[1])\nc := f(f(b))\nc[2] = 1\nprint(len(a), len(b), len(c))\n")
	raw("ret/void", "func f() {\n print(\"v\")\n}\nfunc g(a int) {\n if a > 1 {\n  print(\"big\")\n }\n}\nf()\ng(1)\ng(2)\nfor i := 0; i < 2; i++ {\n f()\n g(i + 1)\n}\n")
	raw("ret/condcall", "func even(n int) bool {\n return n % 2 == 0\n}\nfor i := 0; i < 4; i++ {\n if even(i) && !even(i + 1) {\n  print(i)\n } else if even(i + 1) || even(i) {\n  print(\"o\", i)\n }\n}\nfor n := 5; !even(n); n++ {\n print(n)\n}\nswitch even(#a) {\ncase true:\n print(\"E\")\ncase false:\n print(\"O\")\n}\n")
	raw("call/unused", "func unused(x int) int {\n return x\n}\nfunc used(x int) int {\n return x + 1\n}\nfunc alsounused() {\n print(used(2))\n}\nprint(used(1))\n")
	raw("call/chain10", chainFuncs(10))
	raw("call/interleaved", "x := 1\nfunc f() int {\n return x\n}\ny := f()\nx = 5\nfunc g() int {\n return f() + y\n}\nprint(g())\ny = 100\nprint(g(), f())\n")
	raw("call/inslicelit", "func f(x int) int {\n return x * x\n}\na := []int{f(1), f(2), f(f(2))}\nprint(a[0], a[1], a[2])\na[f(1)] = f(9)\nprint(a[1])\n")
	raw("call/strings", "func wrap(s string, l string, r string) string {\n return l + s + r\n}\nprint(wrap(\"a b\", \"(\", \")\"))\ns := wrap(wrap(\"x\", \"1\", \"2\"), \"3\", \"4\")\nprint(s, len(s))\n")
	raw("call/samearg", "func f(a int, b int, c int) int {\n a = a + 1\n b = b * 2\n return a + b + c\n}\nx := #x\nprint(f(x, x, x), x)\n")
	raw("call/paramreassign", "func f(s string, n int, b bool) string {\n s = s + \"!\"\n n++\n b = !b\n if b {\n  return s + itoa(n)\n }\n return s\n}\ns := \"a\"\nn := 1\nb := false\nprint(f(s, n, b))\nprint(s, n, b)\n")
	return r
}

func chainFuncs(n int) string {
	var b strings.Builder
	b.WriteString("func f0(x int) int {\n return x + 1\n}\n")
	for i := 1; i < n; i++ {
		fmt.Fprintf(&b, "func f%d(x int) int {\n x = f%d(x) + x\n return x\n}\n", i, i-1)
	}
	fmt.Fprintf(&b, "x := 1\nprint(f%d(x), x)\n", n-1)
	return b.String()
}

// c03Schemas: slices and strings.
func c03Schemas(bash bool) []schema {
	var r []schema
	add := func(k, s string, a ...any) { r = append(r, schema{k, fmt.Sprintf(s, a...)}) }
	raw := func(k, s string) { r = append(r, schema{k, s}) }
	el := map[string][]string{"int": {"1", "#k", "-3", "40"}, "bool": {"true", "false", "#k == 2", "true"}, "string": {`"a"`, `"b c"`, `"d"`, `"ef"`}}
	for _, t := range []string{"int", "bool", "string"} {
		for n := 0; n <= 4; n++ {
			l := strings.Join(el[t][:n], ", ")
			add(fmt.Sprintf("lit/%s/%d", t, n), "a := []%s{%s}\nprint(len(a))\nfor i := 0; i < len(a); i++ {\n print(i, a[i])\n}\nfor i, v := range a {\n print(i, v)\n}\nfor i := range a {\n print(i)\n}\n", t, l)
			for _, idx := range []int{0, 1, 2, 5, 9, 10, 12} {
				if idx < n {
					add(fmt.Sprintf("set/%s/%d@%d", t, n, idx), "a := []%s{%s}\na[%d] = %s\nprint(len(a))\nfor i, v := range a {\n print(i, v)\n}\n", t, l, idx, el[t][3])
				} else if n <= 2 {
					add(fmt.Sprintf("grow/%s/%d@%d", t, n, idx), "a := []%s{%s}\na[%d] = %s\nprint(len(a))\nfor i := 0; i < len(a); i++ {\n print(i, a[i])\n}\n", t, l, idx, el[t][0])
				}
			}
		}
		add("append/"+t, "var a []%s\nfor i := 0; i < 12; i++ {\n a[len(a)] = %s\n}\nprint(len(a), a[0], a[9], a[10], a[11])\n", t, el[t][0])
		add("alias/var/"+t, "a := []%s{%s, %s}\nb := a\nb[1] = %s\na[2] = %s\nprint(a[1], b[1], a[2], b[2], len(a), len(b))\nc := b\nc[0] = %s\nprint(a[0], b[0], c[0])\n", t, el[t][0], el[t][1], el[t][3], el[t][0], el[t][2])
		add("alias/param/"+t, "func f(p []%s, v %s) int {\n p[0] = v\n p[len(p)] = v\n q := p\n q[len(q)] = v\n return len(p)\n}\na := []%s{%s}\nprint(f(a, %s), len(a), a[0], a[1], a[2])\n", t, t, t, el[t][0], el[t][3])
		add("alias/ret/"+t, "func mk(v %s) []%s {\n r := []%s{v, v}\n return r\n}\na := mk(%s)\nb := mk(%s)\nc := a\nc[1] = %s\nprint(a[0], a[1], b[0], b[1], len(a), len(b))\n", t, t, t, el[t][0], el[t][1], el[t][3])
		add("distinct/"+t, "a := []%s{%s}\nb := []%s{%s}\na[0] = %s\nprint(a[0], b[0])\na = b\na[0] = %s\nprint(a[0], b[0])\nb = []%s{}\nprint(len(a), len(b))\n", t, el[t][0], t, el[t][0], el[t][3], el[t][2], t)
		add("distinctloop/"+t, "last := []%s{}\nfor i := 0; i < 3; i++ {\n n := []%s{%s}\n print(len(n), len(last))\n n[len(n)] = %s\n last = n\n}\nprint(len(last))\n", t, t, el[t][0], el[t][1])
		add("zero/"+t, "var a []%s\nprint(len(a))\nb := []%s{}\nprint(len(b))\nb[3] = %s\nprint(len(a), len(b), b[0], b[1], b[2], b[3])\na[0] = %s\nprint(a[0])\n", t, t, el[t][3], el[t][0])
		add("copy/"+t, "a := []%s{%s}\nb := []%s{}\nn := copy(b, a)\nprint(n, len(b))\nfor i, v := range b {\n print(i, v)\n}\nb[0] = %s\nprint(a[0], b[0])\n", t, strings.Join(el[t][:3], ", "), t, el[t][3])
		add("copyempty/"+t, "var a []%s\nvar b []%s\nprint(copy(b, a), len(b))\n", t, t)
		add("copysame/"+t, "a := []%s{%s}\nb := []%s{%s}\nprint(copy(b, a))\nprint(a[0], a[1], b[0], b[1])\ncopy(a, b)\nprint(len(a))\n", t, strings.Join(el[t][:2], ", "), t, strings.Join(el[t][2:4], ", "))
		add("copylong/"+t, "var a []%s\nfor i := 0; i < 13; i++ {\n a[i] = %s\n}\na[10] = %s\nvar b []%s\nx := copy(b, a)\nprint(x, len(b), b[0], b[9], b[10], b[12])\n", t, el[t][0], el[t][3], t)
		add("copyover/"+t, "a := []%s{%s}\nb := []%s{%s}\nn := copy(a, b)\nprint(n, len(a), len(b), a[0], a[1], a[2], b[0])\nvar e []%s\nprint(copy(a, e), len(a), a[0], a[2])\nprint(copy(a, a), len(a))\nfunc over(p []%s, q []%s) int {\n return copy(p, q)\n}\nprint(over(a, b), over(b, a), len(b), b[2])\n", t, strings.Join(el[t][:3], ", "), t, el[t][3], t, t, t)
		add("copyshort/"+t, "a := []%s{%s}\nb := []%s{%s}\nprint(copy(b, a), len(b), b[1])\n", t, strings.Join(el[t][:3], ", "), t, el[t][3])
		add("copyfunc/"+t, "func dup(p []%s) []%s {\n var q []%s\n copy(q, p)\n return q\n}\na := []%s{%s}\nb := dup(a)\nb[0] = %s\nprint(a[0], b[0], len(a), len(b))\nprint(copy(a, dup(b)), a[0])\n", t, t, t, t, strings.Join(el[t][:2], ", "), el[t][3])
		add("elemexpr/"+t, "a := []%s{%s}\nx := a[0] == a[1]\nprint(x, a[0] != a[2])\na[0] = a[1]\na[1] = a[2]\nprint(a[0], a[1])\nb := []%s{a[2], a[0]}\nprint(b[0], b[1])\n", t, strings.Join(el[t][:3], ", "), t)
		add("rangebreak/"+t, "a := []%s{%s}\nfor i, v := range a {\n if i == 0 {\n  continue\n }\n print(v)\n if i == 2 {\n  break\n }\n}\nprint(\"end\")\n", t, strings.Join(el[t], ", "))
		add("rangelit/"+t, "for i, v := range []%s{%s} {\n print(i, v)\n}\nfunc mk() []%s {\n return []%s{%s}\n}\nfor i, v := range mk() {\n print(i, v)\n}\n", t, strings.Join(el[t][:2], ", "), t, t, strings.Join(el[t][1:3], ", "))
		add("global/"+t, "g := []%s{%s}\nfunc f() {\n g[len(g)] = %s\n for i, v := range g {\n  print(i, v)\n }\n}\nf()\nf()\nprint(len(g))\n", t, el[t][0], el[t][3])
	}
	raw("idx/expr", "a := []int{10, 20, 30, 40}\ni := 1\nprint(a[i], a[i + 1], a[i * 3], a[len(a) - 1], a[a[0] / 10])\na[i + 1] = a[i] + a[i - 1]\nprint(a[2])\na[a[0] - 9] = 5\nprint(a[1])\ni++\na[i] = i\nprint(a[i])\n")
	raw("idx/nested", "a := []int{2, 0, 1}\nx := a[0]\ny := a[x]\nz := a[y]\nprint(x, y, z, a[a[a[0]]])\n")
	raw("idx/multidigit", "a := []int{}\nfor i := 0; i < 25; i++ {\n a[i] = i * i\n}\nprint(len(a), a[9], a[10], a[11], a[19], a[20], a[24])\na[10] = -1\na[2] = -2\nprint(a[1], a[2], a[10], a[20])\n")
	raw("idx/sum", "a := []int{1, 2, 3}\nt := 0\nfor i, v := range a {\n t += v * (i + 1)\n}\nprint(t)\nfor i := len(a) - 1; i >= 0; i-- {\n print(a[i])\n}\n")
	raw("idx/rev", "a := []int{1, 2, 3, 4, 5}\nfor i := 0; i < len(a) / 2; i++ {\n t := a[i]\n a[i] = a[len(a) - 1 - i]\n a[len(a) - 1 - i] = t\n}\nprint(a[0], a[1], a[2], a[3], a[4])\n")
	raw("idx/sort", "a := []int{5, 2, 8, 1}\nfor i := 0; i < len(a); i++ {\n for j := i + 1; j < len(a); j++ {\n  if a[j] < a[i] {\n   t := a[i]\n   a[i] = a[j]\n   a[j] = t\n  }\n }\n}\nfor i, v := range a {\n print(i, v)\n}\n")
	raw("gap/history", "a := []int{1}\na[3] = 4\nprint(len(a), a[1], a[2])\na[1] = 2\na[7] = 8\nprint(len(a), a[1], a[2], a[4], a[6], a[7])\na[6] = 1\nprint(len(a), a[5])\n")
	raw("gap/10", "a := []int{}\na[11] = 1\nprint(len(a), a[0], a[9], a[10], a[11])\nb := []string{\"x\"}\nb[10] = \"y\"\nprint(len(b), b[0], b[1] == \"\", b[9] == \"\", b[10])\n")
	raw("gap/var", "a := []bool{true}\nn := 4\na[n] = true\nprint(len(a), a[0], a[1], a[3], a[n])\n")
	raw("gap/reuse", "a := []int{7, 7, 7}\na = []int{}\na[2] = 1\nprint(len(a), a[0], a[1], a[2])\n")
	raw("gap/func", "func f(n int) []int {\n var r []int\n r[n] = n\n return r\n}\na := f(2)\nb := f(3)\nprint(len(a), a[0], a[2], len(b), b[3])\n")
	raw("gap/aliasgrow", "a := []int{}\nb := a\na[2] = 3\nb[4] = 5\nprint(len(a), len(b), a[3], a[4], b[2])\n")
	raw("len/expr", "a := []int{1, 2}\nprint(len(a) + 1, len(a) * len(a), len(a) == 2, len([]int{1, 2, 3}))\nif len(a) > 1 && len(a) < 3 {\n print(\"two\")\n}\nn := len(a)\na[n] = 5\nprint(n, len(a))\n")
	raw("range/grown", "a := []int{1}\na[1] = 2\na[2] = 3\nfor i, v := range a {\n a[i] = v * 2\n}\nprint(a[0], a[1], a[2])\n")
	raw("range/nested", "a := []int{1, 2}\nb := []string{\"x\", \"y\"}\nfor i, v := range a {\n for j, w := range b {\n  print(i, v, j, w)\n }\n}\nfor i, v := range a {\n for j, w := range a {\n  print(i * j, v * w)\n }\n}\n")
	raw("range/infunc", "func sum(a []int) int {\n t := 0\n for i, v := range a {\n  t += v + i * 0\n }\n return t\n}\nfunc cat(a []string) string {\n t := \"\"\n for i, v := range a {\n  t += v\n }\n return t\n}\nprint(sum([]int{1, 2, 3}), cat([]string{\"p\", \"q\"}), sum([]int{}))\n")
	raw("multi", "a, b := []int{1}, []string{\"s\"}\nprint(a[0], b[0])\nvar c, d []int\nc[0] = 1\nprint(len(c), len(d))\n")
	raw("bool/cond", "a := []bool{true, false}\nif a[0] && !a[1] {\n print(\"ok\")\n}\nfor i := 0; a[i]; i++ {\n print(i)\n}\na[1] = a[0] || a[1]\nprint(a[1])\n")
	// strings: every substring form over every in-range pair
	for _, s := range []string{"abcdef", "x", "hello wor"} {
		n := len(s)
		for i := 0; i < n; i++ {
			if n <= 6 || i%3 == 0 {
				add(fmt.Sprintf("sidx/%s/%d", s, i), "s := %q\nprint(s[%d])\nk := %d\nprint(s[k])\nc := s[k]\nprint(c == %q, len(c))\n", s, i, i, s[i:i+1])
			}
		}
		for i := 0; i <= n; i++ {
			for j := i; j <= n; j++ {
				if n > 6 && (i+j)%4 != 0 {
					continue
				}
				add(fmt.Sprintf("sub/%s/%d:%d", s, i, j), "s := %q\nprint(\"[\" + s[%d:%d] + \"]\")\na := %d\nb := %d\nt := s[a:b]\nprint(\"<\" + t + \">\", len(t))\n", s, i, j, i, j)
			}
			add(fmt.Sprintf("sub/%s/%d:", s, i), "s := %q\nprint(\"[\" + s[%d:] + \"]\", \"[\" + s[:%d] + \"]\")\na := %d\nt := s[a:]\nu := s[:a]\nprint(t + u, len(t), len(u))\n", s, i, i, i)
		}
		add("sub/"+s+"/:", "s := %q\nprint(s[:], len(s[:]))\nt := s[:]\nt += \"!\"\nprint(s, t)\n", s)
	}
	for n := 0; n <= 12; n++ {
		add(fmt.Sprintf("slen/%d", n), "s := %q\nprint(len(s), len(s + \"x\"), len(%q))\nt := s + s\nprint(len(t))\n", "abcdefghijklmn"[:n], "abcdefghijklmn"[:n])
		add(fmt.Sprintf("srange/%d", n), "s := %q\nfor i, c := range s {\n print(i, c)\n}\nprint(\"end\")\n", "abcdefghijklmn"[:n])
	}
	raw("str/rangeskip", "for i, c := range \"hello\" {\n if c == \"l\" {\n  continue\n }\n print(i, c)\n}\nfor i := range \"abc\" {\n print(i)\n}\n")
	raw("str/build", "s := \"\"\nfor i := 0; i < 5; i++ {\n s += itoa(i)\n}\nprint(s, len(s), s[1:3])\nr := \"\"\nfor i := len(s) - 1; i >= 0; i-- {\n r += s[i]\n}\nprint(r)\n")
	raw("str/eq", "a := \"abc\"\nb := \"ab\"\nprint(a == b + \"c\", a[0:2] == b, a[1] == b[1], a != b, a[2] == \"c\", \"\" == \"\", a == \"\")\n")
	raw("str/find", "func find(s string, t string) int {\n for i := 0; i + len(t) <= len(s); i++ {\n  if s[i:i + len(t)] == t {\n   return i\n  }\n }\n return -1\n}\nprint(find(\"hello\", \"l\"), find(\"hello\", \"lo\"), find(\"hello\", \"z\"), find(\"a\", \"a\"))\n")
	raw("str/immut", "a := \"abc\"\nb := a\nb += \"d\"\nprint(a, b)\nfunc f(s string) string {\n s = s + s\n return s\n}\nprint(f(a), a)\n")
	raw("str/idxexpr", "s := \"abcdef\"\ni := 1\nprint(s[i + 1], s[len(s) - 1], s[i * 2:i * 2 + 2], s[len(s) - 2:], s[:len(s) - 4])\na := []int{0, 3}\nprint(s[a[0]], s[a[1]:], s[a[0]:a[1]])\n")
	raw("str/slices", "a := []string{\"ab\", \"cd\"}\nx := a[1]\nprint(x[0], len(x), len(a[0]), a[0] + a[1])\na[0] += \"\"\n")
	raw("str/spaces", "s := \"a b\"\nprint(s[1] == \" \", len(s), s[0:2] + \"|\", s[1:] + \"|\")\nfor i, c := range s {\n print(i, \"[\" + c + \"]\")\n}\n")
	raw("str/digits", "s := \"2024\"\nprint(s[0], s[1:3], s == \"2024\", s + \"1\", len(s))\nt := itoa(12345)\nprint(t[2], len(t), t[1:4])\n")
	raw("str/grow", "s := \"x\"\nfor i := 0; i < 4; i++ {\n s = s + s\n}\nprint(len(s), s[9:12])\n")
	raw("str/global", "g := \"abc\"\nfunc f(i int) string {\n return g[i] + g[i:] + g[:i]\n}\nprint(f(0), f(1), f(2))\ng = \"xyz\"\nprint(f(1), len(g))\n")
	raw("str/params", "func f(s string, a int, b int) string {\n r := s[a:b]\n return r\n}\nprint(f(\"hello\", 1, 3), f(\"hello\", 0, 5), f(\"hello\", 4, 5))\n")
	if bash {
		raw("sym/sub", "s := \"\\x01s\\x01\"\nprint(len(s), s == \"q\", s + \"w\")\nt := s + \"xyz\"\nprint(len(t), t == s)\n")
		raw("sym/elems", "a := []string{\"\\x01s\\x01\", \"\\x01t\\x01\"}\nfor i, v := range a {\n print(i, v)\n}\nprint(a[0] == a[1], a[0] + a[1])\na[0] = a[1]\nprint(a[0] == a[1])\n")
		raw("sym/ints", "a := []int{#a, #b, #a + #b}\nprint(a[0], a[1], a[2], a[0] == a[1])\na[0] = a[2] * 2\nprint(a[0])\n")
		raw("str/long40", "s := \"abcdefghijklmnopqrstuvwxyzabcdefghijklmnopq\"\nprint(len(s), s[9:11], s[10], s[39:], s[:12], s[10:20])\n")
		raw("idx/40", "var a []int\na[40] = 1\nfor i := 0; i < 40; i++ {\n a[i] = 40 - i\n}\nt := 0\nfor i, v := range a {\n t += i * v\n}\nprint(t, len(a), a[39], a[40])\n")
	}
	return r
}

// evalFuncs are functions whose evaluation is visible.
const evalFuncs = `g := 0
func ti(x int) int {
 print("i", x)
 g++
 return x
}
func tb(x int) bool {
 print("b", x)
 g++
 return x > 1
}
func ts(x string) string {
 print("s", x)
 g++
 return x
}
func tn() int {
 g = g + 1
 print("n", g)
 return g
}
func tl(x int) []int {
 print("l", x)
 r := []int{x, x + 1, x + 2}
 return r
}
func t2(x int) (int, int) {
 print("two", x)
 return x, x + 1
}
func te(x int) error {
 print("e", x)
 if x > 1 {
  return "bad"
 }
 return nil
}
func sum3(a int, b int, c int) int {
 print("sum", a, b, c)
 return a + b + c
}
`

// c04Schemas: order and multiplicity of evaluation.
func c04Schemas() []schema {
	var r []schema
	raw := func(k, s string) { r = append(r, schema{k, evalFuncs + s + "\nprint(\"g\", g)\n"}) }
	// every expression position
	exprs := map[string]string{
		"add": "ti(1) + ti(2)", "sub": "ti(5) - ti(2) - ti(1)", "mulmix": "ti(1) + ti(2) * ti(3)", "mixmul": "ti(2) * ti(3) + ti(4)", "group": "(ti(1) + ti(2)) * (ti(3) - ti(4))", "div": "ti(9) / ti(2) % ti(3)",
		"nestedcall": "ti(ti(ti(3)))", "args": "sum3(ti(1), ti(2), ti(3))", "args2": "sum3(tn(), tn(), tn())", "argsnest": "sum3(ti(1), sum3(ti(2), ti(3), ti(4)), ti(5))", "tnsub": "tn() - tn() * tn()",
		"len": "len(tl(ti(4)))", "lenstr": "len(ts(\"abc\") + ts(\"d\"))", "litgroup": "1 + ti(1) + 1", "arr": "arr[ti(1)] + arr[tn()]", "copycall": "copy(cp, tl(ti(3)))", "itoalen": "len(itoa(ti(12)))",
		"binlit": "3 * ti(4) - 2", "callindex": "arr[ti(0) + ti(1)]",
	}
	bexprs := map[string]string{
		"and": "tb(1) && tb(2)", "or": "tb(2) || tb(1)", "andtrue": "tb(3) && tb(2)", "orfalse": "tb(0) || tb(1)", "mix": "tb(1) && tb(2) || tb(3)", "mix2": "tb(2) || tb(1) && tb(0)", "grp": "tb(1) && (tb(2) || tb(3))", "three": "tb(1) && tb(2) && tb(3)", "three2": "tb(3) || tb(2) || tb(1)",
		"not": "!tb(1)", "notand": "!tb(1) && !tb(2)", "cmp": "ti(1) < ti(2)", "cmpeq": "ti(2) == ti(2) && ti(3) != ti(4)", "cmparith": "ti(1) + ti(2) >= ti(3) * ti(1)", "streq": "ts(\"a\") == ts(\"b\")", "strne": "ts(\"a\") + ts(\"c\") != ts(\"b\")",
		"litand": "false && tb(1)", "litor": "true || tb(1)", "cmplog": "ti(1) > ti(0) || tb(ti(2))", "boolarr": "ba[ti(0)] || ba[ti(1)]", "err": "te(1) == nil && te(2) != nil",
	}
	sexprs := map[string]string{
		"cat": "ts(\"a\") + ts(\"b\") + ts(\"c\")", "itoa": "itoa(ti(1)) + itoa(tn())", "sub": "str[ti(1):ti(3)]", "subfrom": "str[ti(2):]", "subto": "str[:ti(3)]", "single": "str[ti(2)]", "singlen": "str[tn()]", "subcat": "str[ti(0)] + ts(\"q\")", "sarr": "sa[ti(1)] + sa[ti(0)]", "nested": "ts(ts(\"x\") + \"y\")", "subn": "str[tn():tn() + 2]",
	}
	pre := "arr := []int{7, 8, 9, 10}\nba := []bool{true, false}\nsa := []string{\"p\", \"q\"}\nstr := \"abcdef\"\nvar cp []int\n"
	use := func(kind, k, e, t, zero string) {
		st := map[string]string{
			"print":     "print(" + e + ")",
			"print2":    "print(\"x\", " + e + ", tn(), " + e + ")",
			"def":       "v := " + e + "\nprint(v)",
			"var":       "var v " + t + " = " + e + "\nprint(v)",
			"assign":    "v := " + zero + "\nv = " + e + "\nprint(v)",
			"multidef":  "v, w := " + e + ", tn()\nprint(v, w)",
			"multiasg":  "v := " + zero + "\nw := 0\nw, v = tn(), " + e + "\nprint(v, w)",
			"slicelit":  "v := []" + t + "{" + e + ", " + zero + ", " + e + "}\nprint(v[0], v[1], v[2])",
			"sliceset":  "v := []" + t + "{}\nv[ti(1)] = " + e + "\nprint(len(v), v[1])",
			"return":    "",
			"infunc":    "",
			"inloop":    "for k := 0; k < 2; k++ {\n print(" + e + ")\n}",
			"inif":      "if g == 0 {\n print(" + e + ")\n} else {\n print(\"no\")\n}",
			"statement": e,
		}
		if t == "int" {
			st["compound"] = "v := 100\nv += " + e + "\nv -= " + e + "\nprint(v)"
			st["index"] = "long := []int{}\nlong[500 - 480] = 3\nprint(long[(" + e + ") % 5 + 6])"
			st["setindex"] = "long := []int{}\nlong[(" + e + ") % 5 + 6] = ti(77)\nprint(len(long))"
			st["case"] = "q := 3\nswitch q {\ncase " + e + ":\n print(\"c1\")\ncase ti(3):\n print(\"c2\")\ncase tn():\n print(\"c3\")\ndefault:\n print(\"df\")\n}"
			st["callarg"] = "print(sum3(tn(), " + e + ", ti(5)))"
			st["itoa"] = "print(itoa(" + e + ") + \"!\")"
			st["panic"] = "panic(itoa(" + e + "))"
			st["forinit"] = "for k := " + e + " ; k < 3; k++ {\n print(k)\n}"
			st["forpost"] = "for k := 0; k < 2; k = k + 1 + (" + e + ") * 0 {\n print(k)\n}"
		}
		if t == "bool" {
			st["if"] = "if " + e + " {\n print(\"T\")\n} else {\n print(\"F\")\n}"
			st["elif"] = "if tb(0) {\n print(\"1\")\n} else if " + e + " {\n print(\"2\")\n} else if tb(5) {\n print(\"3\")\n} else {\n print(\"4\")\n}"
			st["elif2"] = "if " + e + " {\n print(\"1\")\n tn()\n} else if tb(6) {\n print(\"2\")\n} else {\n print(\"3\")\n}"
			st["forcond"] = "for k := 0; " + e + " && k < 2; k++ {\n print(k)\n}"
			st["while"] = "k := 0\nfor k < 2 && (" + e + ") {\n k++\n print(k)\n}"
			st["switch"] = "switch {\ncase tb(0):\n print(\"1\")\ncase " + e + ":\n print(\"2\")\ncase tb(7):\n print(\"3\")\n}"
			st["not"] = "print(!(" + e + "))"
		}
		if t == "string" {
			st["compound"] = "v := \"z\"\nv += " + e + "\nprint(v)"
			st["cmp"] = "print(" + e + " == ts(\"ab\"), " + e + " != \"x\")"
			st["case"] = "q := \"b\"\nswitch q {\ncase " + e + ":\n print(\"c1\")\ncase ts(\"b\"):\n print(\"c2\")\ndefault:\n print(\"df\")\n}"
			st["len"] = "print(len(" + e + "))"
			st["panic"] = "panic(" + e + ")"
			st["callarg"] = "print(ts(" + e + "))"
		}
		if t != "bool" {
			st["switchtag"] = "switch " + e + " {\ncase " + zero + ":\n print(\"c1\")\ncase " + e + ":\n print(\"c2\")\n tn()\ndefault:\n print(\"df\")\n}"
		}
		for _, sk := range sortedKeys(st) {
			switch sk {
			case "return":
				raw("ret/"+kind+"/"+k, pre+"func rf() ("+t+", int) {\n return "+e+", tn()\n}\nv, w := rf()\nprint(v, w)")
			case "infunc":
				raw("infunc/"+kind+"/"+k, pre+"func rf() "+t+" {\n v := "+e+"\n print(v)\n return "+e+"\n}\nprint(rf())")
			case "statement":
				if strings.HasSuffix(e, ")") && !strings.ContainsAny(strings.SplitN(e, "(", 2)[0], " !+(") && balanced(e) && !strings.HasPrefix(e, "len") && !strings.HasPrefix(e, "itoa") && !strings.HasPrefix(e, "copy") {
					raw("stmt/"+kind+"/"+k, pre+e)
				}
			default:
				raw(sk+"/"+kind+"/"+k, pre+st[sk])
			}
		}
	}
	for _, k := range sortedKeys(exprs) {
		use("int", k, exprs[k], "int", "0")
	}
	for _, k := range sortedKeys(bexprs) {
		use("bool", k, bexprs[k], "bool", "false")
	}
	for _, k := range sortedKeys(sexprs) {
		use("str", k, sexprs[k], "string", `"-"`)
	}
	raw("multi/call", "a, b := t2(ti(3))\nprint(a, b)\na, b = t2(tn())\nprint(a, b)\nt2(ti(1))")
	raw("loop/order", "for i := ti(0); tb(3 - i); i = ti(i + 1) {\n print(\"body\", i)\n}")
	raw("loop/continue", "for i := 0; tb(4 - i); i = i + ti(1) {\n if i == 1 {\n  continue\n }\n print(\"body\", i)\n}")
	raw("loop/break", "for i := 0; tb(9); i = i + ti(1) {\n if i == 2 {\n  break\n }\n print(\"body\", i)\n}")
	raw("loop/cond", "n := 0\nfor tb(3 - n) {\n n = n + ti(1)\n}")
	raw("loop/never", "for i := ti(5); tb(0); i = ti(9) {\n print(\"no\")\n}")
	raw("loop/nested", "for i := 0; tb(3 - i); i++ {\n for j := ti(0); tb(3 - j); j++ {\n  print(i, j)\n }\n}")
	raw("if/chain", "a := #a\nif a == ti(1) {\n print(\"1\")\n tn()\n} else if a == ti(2) && tb(1) {\n print(\"2\")\n tn()\n} else if tb(a) || a < ti(0) {\n print(\"3\")\n} else {\n print(\"4\")\n tn()\n}")
	raw("if/nested", "if tb(#a) {\n if tb(#b) {\n  tn()\n } else if tb(5) {\n  ti(1)\n }\n} else if tb(6) {\n if tb(7) && tb(8) {\n  ti(2)\n }\n}")
	raw("if/globalchange", "if tb(2) {\n g = 100\n} else if g == 1 {\n print(\"no\")\n}\nif g == 100 {\n print(\"yes\")\n}")
	raw("switch/cases", "switch 2 {\ncase ti(1):\n print(\"1\")\ncase ti(2):\n print(\"2\")\ncase ti(3):\n print(\"3\")\ndefault:\n print(\"d\")\n}")
	raw("switch/bools", "switch {\ncase tb(1):\n tn()\ncase tb(2):\n print(g)\ncase tb(3):\n tn()\ndefault:\n tn()\n}")
	raw("slice/nested", "a := tl(ti(2))\na[tn()] = tn()\nprint(a[0], a[1], a[2])\na[ti(1)] = a[ti(2)] + ti(4)\nprint(a[1])")
	raw("copy/once", "var d []int\nn := copy(d, tl(tn()))\nprint(n, d[0])\ncopy(d, tl(5))\nprint(d[0])")
	raw("print/list", "print(ti(1), tb(2), ts(\"x\"), tn(), tn(), itoa(ti(3)), len(tl(1)))")
	raw("return/list", "func r3() (int, bool, string) {\n return tn(), tb(ti(2)), ts(\"a\") + ts(\"b\")\n}\na, b, c := r3()\nprint(a, b, c)")
	raw("return/inloop", "func f(n int) int {\n for i := ti(0); tb(9); i = ti(i + 1) {\n  if i == n {\n   return tn() + ti(i)\n  }\n }\n return ti(0)\n}\nprint(f(2))")
	raw("panic/args", "x := ts(\"a\")\npanic(ts(x + \"b\") + itoa(tn()))")
	raw("args/globals", "func up(x int) int {\n g = g + x\n return g\n}\nprint(sum3(up(1), up(10), up(100)))\nx := up(1) * up(2)\nprint(x)")
	raw("multiassign/calls", "a, b, c := tn(), ti(5), tn()\nprint(a, b, c)\na, b, c = ti(1) + tn(), tn(), ti(2) * tn()\nprint(a, b, c)")
	raw("range/body", "rs := []int{ti(4), ti(5)}\nfor i, v := range rs {\n print(i, v, tn())\n}")
	raw("range/once", "for i, v := range tl(ti(3)) {\n print(i, v, tn())\n}")
	raw("range/onceidx", "for i := range tl(tn()) {\n print(i)\n}")
	raw("range/oncestr", "for i, v := range ts(\"ab\") + ts(\"c\") {\n print(i, v, tn())\n}")
	raw("range/oncenested", "for i, v := range tl(1) {\n for j, w := range tl(v) {\n  print(i, j, w)\n  if j == 1 {\n   break\n  }\n }\n}")
	raw("range/oncefunc", "func rr() int {\n for i, v := range tl(2) {\n  if i == 1 {\n   return v + tn()\n  }\n }\n return 0\n}\nfor i, v := range tl(rr()) {\n print(i, v)\n}")
	raw("range/strassign", "q := \"abc\"\nfor i, c := range q {\n q = q + c\n print(i, c, tn())\n}\nprint(q)")
	raw("range/sliceassign", "q := []int{1, 2}\nfor i, c := range q {\n q = tl(7)\n print(i, c)\n}\nprint(q[0])")
	raw("switch/once", "switch ti(2) {\ncase ti(1):\n print(\"1\")\ncase ti(2):\n print(\"2\")\ncase ti(3):\n print(\"3\")\ndefault:\n print(\"d\")\n}")
	raw("switch/onlydefault", "switch ti(2) {\ndefault:\n print(\"d\")\n}")
	raw("switch/bool", "switch tb(2) {\ncase tb(1):\n print(\"1\")\ncase tb(3):\n print(\"2\")\n}")
	raw("switch/nested", "switch ti(2) {\ncase 2:\n switch ts(\"a\") {\n case \"b\":\n  print(\"b\")\n case ts(\"a\"):\n  print(\"a\")\n }\n print(tn())\ncase tn():\n print(\"n\")\n}")
	raw("short/circuit", "a := tb(0) && tb(5)\nb := tb(5) || tb(6)\nprint(a, b)\nif a && tb(7) {\n print(\"no\")\n}\nfor b && tb(1) {\n print(\"no\")\n}")
	return r
}

// c04World: operands of file, command and input statements.
func c04World() []schema {
	return []schema{
		{"write2", "write(ts(\"f\"), ts(\"c\"))\nprint(read(\"f\"))"},
		{"write3", "write(ts(\"f\"), ts(\"c\"), tb(2))\nprint(read(\"f\"))"},
		{"write3f", "write(ts(\"f\") + ts(\"2\"), itoa(tn()) + ts(\"c\"), tb(1) && tb(3))\nprint(read(\"f2\"))"},
		{"writelit", "write(\"f\", ts(\"c\"), tb(3))\nwrite(ts(\"f\"), \"k\", tb(2))\nprint(read(\"f\"))"},
		{"writenest", "write(ts(ts(\"f\")), ts(ts(\"c\") + itoa(ti(1))), tb(ti(2)))\nprint(read(\"f\"))"},
		{"writeread", "write(\"f\", \"x\")\nwrite(ts(\"f\"), read(ts(\"f\")) + ts(\"y\"), tb(2))\nprint(read(\"f\"))"},
		{"read", "write(\"f\", \"x\")\nprint(read(ts(\"f\")) + ts(\"y\") + read(ts(\"f\")))\nprint(read(ts(\"f\")) == ts(\"x\"))"},
		{"readorder", "write(\"f\", \"x\")\nprint(ts(\"a\"), read(ts(\"f\")), tn(), read(\"f\"), tn())"},
		{"exists", "print(exists(ts(\"f\")) && exists(ts(\"nope\")), tn())\nif exists(ts(\"nope\")) || tb(2) {\n print(\"yes\")\n}"},
		{"existscond", "if tb(1) && exists(ts(\"nope\")) {\n print(\"1\")\n} else if exists(ts(\"f\")) || tb(0) {\n print(\"2\")\n} else if tb(4) {\n print(\"3\")\n}"},
		{"existsloop", "k := 0\nfor !exists(ts(\"nope\")) && k < 2 {\n k = k + ti(1)\n}\nprint(k)"},
		{"app", "@K_p(ts(\"a\"), itoa(tn()), ts(\"b\") + ts(\"c\"))"},
		{"pipe", "@K_p(ts(\"a\"), ts(\"b\")) | @K_q(ts(\"c\"), itoa(tn())) | @K_r(ts(\"d\"))"},
		{"capture", "wo, we, wc := @K_p(ts(\"a\"), itoa(tn())) | @K_q(ts(\"b\"))\nprint(wo, ti(wc), tn())"},
		{"captures", "wo, we, wc := @K_p(ts(\"a\"))\nwo, we, wc = @K_q(wo, ts(\"b\"), itoa(ti(wc)))\nprint(wo)\nprint(wc)"},
		{"panic", "panic(ts(\"a\") + itoa(tn()) + ts(\"b\"))"},
		{"input", "wi1 := input(ts(\"a\") + ts(\"b\"))\nprint(wi1 == ts(\"c\"), tn())"},
	}
}

func balanced(e string) bool {
	d := 0
	for i, c := range e {
		switch c {
		case '(':
			d++
		case ')':
			d--
			if d == 0 && i != len(e)-1 {
				return false
			}
		}
	}
	return d == 0
}

func semFeat(kind string, i int) gfeat {
	switch kind {
	case "C02":
		return gfeat{Str: i%2 == 0, Slice: i%3 == 0, Func: true, Multi: true, Loops: i%4 != 0, Switch: i%5 == 0, Sym: i % 3, Size: 4 + i%6, Globals: true, Globalw: true}
	case "C03":
		return gfeat{Str: true, Slice: true, Subs: true, Func: i%3 == 0, Loops: true, Multi: i%4 == 0, Size: 5 + i%7, Sym: i % 2}
	case "C04":
		return gfeat{Str: i%2 == 0, Slice: i%3 == 1, Func: true, Side: true, Multi: true, Loops: true, Switch: i%3 == 0, Size: 4 + i%6, Globals: true, Globalw: true}
	}
	return gfeat{Str: i%2 == 0, Loops: true, Switch: true, Sym: 1 + i%2, Size: 4 + i%6, Panic: i%5 == 0, SymStr: i % 3 / 2}
}

func init() {
	rule := "every schema of the fragment is transpiled by abstract interpretation of the compiler's SSA; the emitted Bash template is interpreted in the Bash model and compared (stdout, exit status, stderr empty) with the reference meaning on every combination of the values' relations"
	mk := func(id string, ss func() []schema) {
		checks[id] = &propCheck{level: "translation_validation", rule: rule, run: func(c *Ctx) {
			for _, s := range append(ss(), scaleAll(id, c.n(0, 1) == 1)...) {
				c.program(s.key, s.src, progOpt{})
			}
			n := c.n(600, 6000)
			for i := 1; i <= n; i++ {
				c.program(fmt.Sprintf("gen/%d", i), genProgram(c.draw(i)+7777*uint64(id[2]), semFeat(id, i)), progOpt{})
			}
		}}
	}
	// operands of the statements which reach outside of the script
	worldOrder := func(c *Ctx) {
		for _, s := range c04World() {
			ws := storeWorlds()
			if strings.Contains(s.src, "@") {
				ws = cmdWorlds()
			}
			c.program("world/"+s.key, evalFuncs+s.src+"\nprint(\"g\", g)\n", progOpt{worlds: ws})
			c.program("worldfunc/"+s.key, evalFuncs+"func wf() int {\n"+s.src+"\n return tn()\n}\nprint(wf())\nprint(\"g\", g)\n", progOpt{worlds: ws})
			c.program("worldloop/"+s.key, evalFuncs+"for wi := 0; wi < 2; wi++ {\n if tb(2) {\n"+s.src+"\n }\n}\nprint(\"g\", g)\n", progOpt{worlds: ws})
		}
	}
	mk("C02", c02Schemas)
	c02 := checks["C02"].run
	checks["C02"].run = func(c *Ctx) {
		c02(c)
		for _, s := range ctlLeave(c.n(2, 3), "return") {
			c.program(s.key, s.src, progOpt{})
		}
	}
	mk("C03", func() []schema { return c03Schemas(true) })
	mk("C04", c04Schemas)
	c04 := checks["C04"].run
	checks["C04"].run = func(c *Ctx) { c04(c); worldOrder(c) }
	checks["C05"] = &propCheck{level: "translation_validation",
		rule: "every schema of the scalar, function, slice, string and evaluation-order fragments is transpiled for Batch by abstract interpretation of the compiler's SSA; the emitted template is interpreted in the cmd.exe model (32-bit) and compared with the reference meaning",
		run: func(c *Ctx) {
			fam := func(p string, ss []schema) {
				for _, s := range ss {
					c.program(p+"/"+s.key, s.src, progOpt{targets: []string{"batch"}})
				}
			}
			fam("C01", c01Schemas())
			fam("C01", ctlSchemas(c.n(3, 4)))
			fam("C01", ctlLeave(c.n(2, 3), "panic"))
			fam("C02", ctlLeave(c.n(2, 3), "return"))
			fam("C02", c02Schemas())
			fam("C03", c03Schemas(false))
			fam("C04", c04Schemas())
			for _, id := range []string{"C01", "C02", "C03", "C04"} {
				fam(id, scaleAll(id, c.n(0, 1) == 1))
			}
			n := c.n(400, 4000)
			for _, id := range []string{"C01", "C02", "C03", "C04"} {
				for i := 1; i <= n; i++ {
					f := semFeat(id, i)
					f.NoChars = true
					f.SymStr = 0
					c.program(fmt.Sprintf("gen%s/%d", id, i), genProgram(c.draw(i)+7777*uint64(id[2]), f), progOpt{targets: []string{"batch"}})
				}
			}
		}}
}
