package main

import (
	"fmt"
	"strings"
)

// ---------------------------------------------------------------- C07: names resolve lexically

// scopeSkels are programs with numbered places (@0, @1, …) for declarations and uses.
var scopeSkels = []schema{
	{"blocks", `c0 := true
k0 := 2
@0
if c0 {
 @1
 for i0 := 0; i0 < 1; i0++ {
  @2
 }
 @3
} else if k0 == 1 {
 @4
} else {
 @5
}
@6
switch k0 {
case 1:
 @7
case 2:
 @8
default:
 @9
}
@10
for i1, v1 := range []int{1} {
 @11
}
@12
`},
	{"funcs", `@0
func fa(pa int, qa string) int {
 @1
 if pa == 1 {
  @2
 }
 for ia := 0; ia < pa; ia++ {
  @3
 }
 @4
 return pa
}
@5
func fb(pb string) {
 @6
}
@7
fa(1, "s")
@8
fb("t")
@9
`},
	{"loops", `n0 := 1
@0
for n0 < 3 {
 @1
 n0++
 for j0, w0 := range "ab" {
  @2
  if n0 == 2 {
   @3
  }
 }
 @4
}
@5
func fc() {
 for {
  @6
  break
 }
 @7
 for jc := 0; ; jc++ {
  @8
  break
 }
 @9
}
@10
`},
}

var scopeDecls = []schema{
	{"short", "x := 1"},
	{"var", "var x int"},
	{"varinit", "var x int = 2"},
	{"short2", "x, x2 := 1, 2"},
	{"short2b", "x2, x := \"s\", 2"},
	{"call2", "x, x2 := K_two()"},
	{"var2", "var x2, x int"},
	{"for", "for x := 0; x < 1; x++ {\n print(x)\n}"},
	{"range", "for x, x2 := range []int{3} {\n print(x, x2)\n}"},
	{"rangev", "for x2, x := range []int{3} {\n print(x, x2)\n}"},
	{"if", "if true {\n x := 4\n print(x)\n}"},
	{"switch", "switch 1 {\ncase 1:\n x := 4\n print(x)\n}"},
	{"func", "func x() int {\n return 1\n}"},
	{"param", "func fx(x int) int {\n return x\n}"},
	{"local", "func fx() int {\n x := 2\n return x\n}"},
	{"none", "print(0)"},
}

var scopeUses = []schema{
	{"print", "print(x)"},
	{"assign", "x = 3"},
	{"inc", "x++"},
	{"dec", "x--"},
	{"compound", "x += 2"},
	{"multi", "z, y := x, 2\nprint(z, y)"},
	{"masg", "K_g, x = 1, 2"},
	{"arith", "y := 1 + x\nprint(y)"},
	{"cmp", "if x == 1 {\n print(\"t\")\n}"},
	{"logic", "y := true && x < 2\nprint(y)"},
	{"group", "y := (x)\nprint(y)"},
	{"not", "if !(x > 2) {\n print(\"t\")\n}"},
	{"arg", "K_one(x)"},
	{"argexpr", "y := K_one(K_one(x)) + 1\nprint(y)"},
	{"itoa", "print(itoa(x))"},
	{"index", "y := K_s[x]\nprint(y)"},
	{"setindex", "K_s[x] = 1"},
	{"setvalue", "K_s[0] = x"},
	{"substr", "print(K_t[x:])"},
	{"substr2", "print(K_t[0:x])"},
	{"slicelit", "y := []int{1, x}\nprint(y[1])"},
	{"switch", "switch x {\ncase 1:\n print(1)\n}"},
	{"case", "switch 1 {\ncase x:\n print(1)\n}"},
	{"forinit", "for y := x; y < 2; y++ {\n print(y)\n}"},
	{"forcond", "for y := 0; y < x; y++ {\n print(y)\n}"},
	{"forpost", "for y := 0; y < 2; y += x {\n break\n}"},
	{"forasg", "for x = 0; x < 2; x++ {\n print(x)\n}"},
	{"while", "for x < 0 {\n print(x)\n}"},
	{"elseif", "if false {\n print(1)\n} else if x == 2 {\n print(2)\n}"},
	{"app", "@K_p(itoa(x))"},
	{"apppipe", "@K_p(\"a\") | @K_q(itoa(x))"},
	{"cap", "y, ye, yc := @K_p(itoa(x))\nprint(y)"},
	{"call", "x()"},
	{"callv", "y := x()\nprint(y)"},
	{"callarg", "print(K_one(x()))"},
	{"write", "write(\"f\", itoa(x))"},
	{"panic", "panic(itoa(x))"},
	{"range", "for y, yv := range []int{x} {\n print(y, yv)\n}"},
	{"nested", "if true {\n for y := 0; y < 1; y++ {\n  switch y {\n  default:\n   print(x)\n  }\n }\n}"},
	{"var", "var y int = x\nprint(y)"},
	{"varn", "var y, yy int = x, x\nprint(y, yy)"},
	{"x2", "print(x2)"},
}

const scopePre = "K_g := 0\nK_s := []int{1, 2, 3}\nK_t := \"abcdef\"\nfunc K_one(p int) int {\n return p\n}\nfunc K_two() (int, int) {\n return 1, 2\n}\n"

func fillPlaces(skel string, m map[int]string) string {
	var out []string
	for _, l := range strings.Split(skel, "\n") {
		t := strings.TrimSpace(l)
		if strings.HasPrefix(t, "@") {
			var k int
			fmt.Sscanf(t, "@%d", &k)
			if s, ok := m[k]; ok {
				out = append(out, s)
			}
			continue
		}
		out = append(out, l)
	}
	return strings.Join(out, "\n")
}

func places(skel string) int { return strings.Count(skel, "@") }

// scopePrograms enumerates declaration/use and declaration/declaration pairs over all places.
// every gives the distance of the chosen combinations.
func every(full bool, thorough, quick int) int {
	if full {
		return thorough
	}
	return quick
}

func scopePrograms(full bool) []schema {
	var r []schema
	add := func(k, s string) { r = append(r, schema{k, scopePre + s}) }
	declOK := func(skel schema, at int, d schema) bool { return true }
	for _, sk := range scopeSkels {
		n := places(sk.src)
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				for di, d := range scopeDecls {
					if !declOK(sk, i, d) {
						continue
					}
					// declaration at i, use at j (twice the same place: the use follows)
					for ui, u := range scopeUses {
						if ui != 0 && (ui*7+di*5+i*3+j)%every(full, 7, 53) != 0 {
							continue
						}
						m := map[int]string{i: d.src, j: u.src}
						if i == j {
							m = map[int]string{i: d.src + "\n" + u.src}
							add(fmt.Sprintf("use/%s/%d/%s/before/%s", sk.key, i, d.key, u.key), fillPlaces(sk.src, map[int]string{i: u.src + "\n" + d.src}))
						}
						add(fmt.Sprintf("use/%s/%d/%s/%d/%s", sk.key, i, d.key, j, u.key), fillPlaces(sk.src, m))
					}
					if i > j {
						continue
					}
					for ei, e := range scopeDecls {
						if (ei*3+di*7+i+j)%every(full, 3, 11) != 0 {
							continue
						}
						m := map[int]string{i: d.src, j: e.src}
						if i == j {
							m = map[int]string{i: d.src + "\n" + e.src}
						}
						add(fmt.Sprintf("redef/%s/%d/%s/%d/%s", sk.key, i, d.key, j, e.key), fillPlaces(sk.src, m))
					}
				}
			}
			// names which the skeleton itself declares
			for _, nm := range []string{"c0", "k0", "i0", "i1", "v1", "pa", "qa", "ia", "pb", "n0", "j0", "w0", "jc"} {
				if !strings.Contains(sk.src, nm) {
					continue
				}
				for _, u := range []string{"print(%s)", "%s = %s", "y := %s\nprint(y)", "%s := 1", "var %s int", "%s, y := 1, 2", "for %s := 0; %s < 1; %s++ {\n}", "for %s, y := range K_s {\n}", "for y, %s := range K_s {\n}", "func %s() {\n}", "func fy(%s int) {\n}"} {
					add(fmt.Sprintf("own/%s/%d/%s/%s", sk.key, i, nm, strings.ReplaceAll(u, "\n", ";")), fillPlaces(sk.src, map[int]string{i: strings.ReplaceAll(u, "%s", nm)}))
				}
			}
			for _, nm := range []string{"fa", "fb", "fc", "fnone", "print", "K_one"} {
				for _, u := range []string{"%s()", "%s(1, \"s\")", "%s(\"s\")", "func %s() {\n}", "y := %s(1, \"s\")\nprint(y)", "%s := 1", "%s = 1", "print(%s)"} {
					if nm == "print" && !strings.HasPrefix(u, "func") {
						continue
					}
					add(fmt.Sprintf("fn/%s/%d/%s/%s", sk.key, i, nm, strings.ReplaceAll(u, "\n", ";")), fillPlaces(sk.src, map[int]string{i: strings.ReplaceAll(u, "%s", nm)}))
				}
			}
			for _, u := range []schema{
				{"break", "break"}, {"continue", "continue"}, {"return", "return"}, {"return1", "return 1"}, {"returns", "return \"s\""},
				{"ifbreak", "if true {\n break\n}"}, {"ifcontinue", "if true {\n continue\n}"}, {"ifreturn", "if true {\n return 1\n}"}, {"elsebreak", "if true {\n print(1)\n} else {\n break\n}"},
				{"switchbreak", "switch 1 {\ncase 1:\n break\n}"}, {"switchcontinue", "switch 1 {\ndefault:\n continue\n}"},
				{"forbreak", "for {\n break\n}"}, {"forcontinue", "for y := 0; y < 1; y++ {\n continue\n}"}, {"rangebreak", "for y, yv := range K_s {\n break\n}"},
				{"forifbreak", "for {\n if true {\n  break\n } else {\n  continue\n }\n}"}, {"forswitch", "for y := 0; y < 2; y++ {\n switch y {\n case 0:\n  continue\n }\n}"},
				{"func", "func fx() {\n}"}, {"funccall", "func fx() {\n}\nfx()"}, {"funcif", "if true {\n func fx() {\n }\n}"}, {"funcfor", "for {\n func fx() {\n }\n break\n}"}, {"funcswitch", "switch 1 {\ncase 1:\n func fx() {\n }\n}"},
				{"funcfunc", "func fx() {\n func fy() {\n }\n}"}, {"funcbreak", "func fx() {\n break\n}"}, {"funcloop", "for y := 0; y < 2; y++ {\n print(y)\n}\nfunc fx() {\n if true {\n  continue\n }\n}"},
				{"funcreturn", "func fx() int {\n return 1\n}\nfunc fy() int {\n return fx()\n}"}, {"twice", "func fx() {\n}\nfunc fx() {\n}"}, {"twicesig", "func fx() {\n}\nfunc fx(p int) int {\n return p\n}"},
				{"early", "fx()\nfunc fx() {\n}"}, {"earlyin", "func fy() {\n fx()\n}\nfunc fx() {\n}"}, {"import", "import \"strings\""},
				{"selfvar", "x := x"}, {"selfvar2", "var x int = x"}, {"selfvar3", "x, y := 1, x"}, {"selfcall", "x := K_one(x)"}, {"selffor", "for x := x; x < 1; x++ {\n}"}, {"selfrange", "for x, y := range x {\n}"}, {"selfrange2", "for x, y := range []int{x} {\n}"},
			} {
				add(fmt.Sprintf("stmt/%s/%d/%s", sk.key, i, u.key), fillPlaces(sk.src, map[int]string{i: u.src}))
				if full {
					for j := 0; j < n; j++ {
						if j != i {
							add(fmt.Sprintf("stmt2/%s/%d/%d/%s", sk.key, i, j, u.key), fillPlaces(sk.src, map[int]string{i: u.src, j: u.src}))
						}
					}
				}
			}
		}
	}
	// what lives in the head of a construct
	for i, s := range []string{
		"for i := 0; i < 2; i++ {\n print(i)\n}\nprint(i)\n", "for i := 0; i < 2; i++ {\n}\nfor i := 0; i < 2; i++ {\n}\ni := 3\nprint(i)\n",
		"i := 3\nfor i := 0; i < 2; i++ {\n}\n", "i := 3\nfor i = 0; i < 2; i++ {\n}\nprint(i)\n", "for i := 0; j < 2; i++ {\n}\n", "for i := 0; i < 2; j++ {\n}\n",
		"for i := 0; i < 2; i++ {\n j := i\n print(j)\n}\nprint(j)\n", "for i := 0; i < 2; i += j {\n j := 1\n}\n", "for i := 0; i < j; i++ {\n j := 1\n}\n",
		"for i, v := range []int{1} {\n print(i, v)\n}\nprint(i)\n", "for i, v := range []int{1} {\n print(i, v)\n}\nprint(v)\n", "for i, i := range []int{1} {\n}\n", "v := 2\nfor i, v := range []int{1} {\n}\n",
		"for i, v := range []int{v} {\n}\n", "for i := range []int{1} {\n print(i)\n}\ni := 2\nprint(i)\n", "for i := 0; i < 2; i++ {\n i := 5\n}\n", "for i, v := range []int{1} {\n v := 5\n}\n",
		"for i, v := range []int{1} {\n for i, w := range []int{2} {\n }\n}\n", "for i, v := range []int{1} {\n for j, v := range []int{2} {\n }\n}\n", "for i, v := range []int{1} {\n for j, w := range []int{v} {\n  print(i, j, v, w)\n }\n}\n",
		"if true {\n a := 1\n print(a)\n} else {\n print(a)\n}\n", "if true {\n a := 1\n print(a)\n} else {\n a := \"s\"\n print(a)\n}\na := false\nprint(a)\n", "if a == 1 {\n a := 1\n}\n", "if true {\n a := 1\n print(a)\n} else if a == 2 {\n}\n",
		"switch 1 {\ncase 1:\n a := 1\n print(a)\ncase 2:\n print(a)\n}\n", "switch 1 {\ncase 1:\n a := 1\n print(a)\ncase 2:\n a := 2\n print(a)\ndefault:\n a := 3\n print(a)\n}\na := 4\nprint(a)\n", "switch a {\ncase 1:\n a := 1\n}\n",
		"func f(p int) {\n print(p)\n}\nprint(p)\n", "func f(p int) {\n print(p)\n}\np := 1\nf(p)\n", "p := 1\nfunc f(p int) {\n print(p)\n}\n", "func f(p int, p int) {\n}\n", "func f(p int, q string, p bool) {\n}\n", "func f(p int) {\n p := 2\n}\n", "func f(p int) {\n if true {\n  p := 2\n }\n}\n",
		"func f(p int) {\n for p := 0; p < 1; p++ {\n }\n}\n", "func f(p int) {\n p = 2\n print(p)\n}\nf(1)\n", "func f(p int) {\n p, q := 2, 3\n print(p, q)\n}\nf(1)\n",
		"func f() {\n print(g)\n}\ng := 1\nf()\n", "g := 1\nfunc f() {\n print(g)\n g = 2\n}\nf()\nprint(g)\n", "if true {\n g := 1\n print(g)\n}\nfunc f() {\n print(g)\n}\n", "for g := 0; g < 1; g++ {\n}\nfunc f() {\n print(g)\n}\n",
		"func c() {\n l := 1\n print(l)\n}\nfunc f() {\n print(l)\n}\nc()\nf()\n", "func f() {\n print(l)\n}\nfunc c() {\n l := 1\n print(l)\n f()\n}\nc()\n", "func f() {\n l := 1\n print(l)\n}\nfunc c() {\n l := 2\n f()\n print(l)\n}\nc()\nl := 3\nf()\nprint(l)\n",
		"func f(l int) {\n print(l)\n}\nfunc c(l int) {\n f(l + 1)\n print(l)\n}\nc(5)\nl := 9\nc(l)\nprint(l)\n",
		"func f() int {\n}\n", "func f() int {\n print(1)\n}\n", "func f() int {\n if true {\n  return 1\n }\n}\n", "func f() int {\n if true {\n  return 1\n } else {\n  print(1)\n }\n}\n", "func f() int {\n if true {\n  print(1)\n } else {\n  return 1\n }\n}\n",
		"func f() int {\n for i := 0; i < 2; i++ {\n  return i\n }\n}\n", "func f() int {\n for i, v := range []int{1} {\n  return v\n }\n}\n", "func f(p int) int {\n switch p {\n case 1:\n  return 1\n }\n}\n", "func f(p int) int {\n switch p {\n case 1:\n  return 1\n case 2:\n  print(1)\n default:\n  return 3\n }\n}\n",
		"func f() (int, string) {\n if true {\n  return 1, \"a\"\n }\n}\n", "func f() (int, string) {\n return 1, \"a\"\n print(1)\n}\n", "func f() int {\n return 1\n return 2\n}\nprint(f())\n", "func f() int {\n if true {\n  return 1\n }\n return 2\n}\nprint(f())\n", "func f() int {\n x := 1\n x = 2\n}\n", "func f() int {\n f2 := 1\n f2++\n}\n", "func f() int {\n for true {\n  return 1\n }\n}\n", "func f() int {\n return 1\n if true {\n }\n}\n", "func f() []int {\n}\n", "func f() error {\n print(1)\n}\n",
		"func f() {\n f()\n}\n", "func f() int {\n return f()\n}\n", "func f() {\n g()\n}\nfunc g() {\n f()\n}\n", "func f() {\n}\nfunc g() {\n f()\n}\nfunc h() {\n g()\n f()\n}\nh()\n",
		"f()\nfunc f() {\n}\n", "x := f()\nfunc f() int {\n return 1\n}\nprint(x)\n", "if true {\n f()\n}\nfunc f() {\n}\n", "f := 1\nfunc f() int {\n return 2\n}\nprint(f)\n", "func f() int {\n return 2\n}\nf := 1\nprint(f)\n",
		"a := 1\na := 2\n", "var a int\nvar a int\n", "var a int\nvar a string\n", "a := 1\nvar a int\n", "var a int\na := 2\n", "a := 1\nif true {\n a := 2\n}\n", "a := 1\nif true {\n var a int\n}\n", "a := 1\nif true {\n b := a\n if true {\n  c := a + b\n  print(c)\n }\n}\n",
		"a, b := 1, 2\na, c := 3, 4\nprint(a, b, c)\n", "a, b := 1, 2\na, b := 3, 4\n", "a, a := 1, 2\n", "var a, a int\n", "a, b := 1, 2\nb, a = a, b\nprint(a, b)\n", "a = 1\n", "a++\n", "a += 1\n", "a[0] = 1\n", "print(a[0])\n", "copy(a, []int{1})\n", "d := []int{}\ncopy(d, a)\n", "print(len(a))\n",
		"break\n", "continue\n", "return\n", "return 1\n", "if true {\n return 1\n}\n", "for {\n return 1\n}\n", "for {\n func f() {\n }\n}\n", "switch {\ncase true:\n continue\n}\n",
	} {
		add(fmt.Sprintf("head/%d", i), s)
	}
	return r
}

// asModule turns a program into an imported file.
func asModule(src string) *Project {
	return &Project{Main: "/w/main.tsh", Files: map[string]string{"/w/main.tsh": "import m \"lib.tsh\"\nprint(\"main\")\n", "/w/lib.tsh": src}}
}

func init() {
	checks["C07"] = &propCheck{level: "other",
		rule: "every pair of a declaration form and a use form (or of two declaration forms) at every pair of places of the skeleton programs is judged by an independent lexical-scope checker and by abstract interpretation of the compiler's SSA for both targets, as main file and as imported file: exactly the programs whose names resolve must be translated",
		run: func(c *Ctx) {
			c.scaleScopes()
			for i, s := range scopePrograms(!c.quick()) {
				c.judged(s.key, s.src, nil)
				// what is accepted also has to reach the right variable
				runs := strings.HasPrefix(s.key, "head") || strings.HasPrefix(s.key, "own") || i%c.n(11, 6) == 0
				if runs && !strings.Contains(s.src, "@") && !strings.Contains(s.src, "write(") {
					if v := c.verdict(s.src); v == "accept" {
						c.program("run/"+s.key, s.src, progOpt{})
						c.program("runmodule/"+s.key, "", progOpt{proj: asModule(s.src)})
					}
				}
				if i%c.n(5, 2) == 0 || strings.HasPrefix(s.key, "head") || strings.HasPrefix(s.key, "stmt") {
					c.judged("module/"+s.key, s.src, asModule(s.src))
				}
			}
		}}
}
