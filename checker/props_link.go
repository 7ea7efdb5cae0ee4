package main

import (
	"fmt"
	"strings"
)

// ---------------------------------------------------------------- C09: programs of several files

func files(kv ...string) *Project {
	p := &Project{Main: "/w/main.tsh", Files: map[string]string{}}
	for i := 0; i < len(kv); i += 2 {
		p.Files["/w/"+kv[i]] = kv[i+1]
	}
	return p
}

// linked queues a program of several files which has to be translated and to run as the composition of its files,
// or (if the reference rejects it) has to be rejected.
func (c *Ctx) linked(key string, p *Project) {
	if c.collect != nil {
		c.collect(key, p)
		return
	}
	if v, _ := refJudge(prepare(p)); v != "accept" {
		c.judged(key, "", p)
		return
	}
	o := progOpt{proj: p, targets: bothTargets}
	for _, s := range p.Files {
		if strings.Contains(s, "write(") {
			o.targets = nil // the Batch side of files is not modelled
		}
	}
	c.program(key, "", o)
}

// where a call can stand; CALL is an int-valued call, its callee prints
var callSites = []schema{
	{"stmt", "CALL\n"},
	{"print", "print(CALL)\n"},
	{"print2", "print(1, CALL)\n"},
	{"def", "z := CALL\nprint(z)\n"},
	{"def2", "z, y := 5, CALL\nprint(z, y)\n"},
	{"var", "var z int = CALL\nprint(z)\n"},
	{"asg", "z := 1\nz = CALL\nprint(z)\n"},
	{"compound", "z := 1\nz += CALL\nprint(z)\n"},
	{"bin", "print(1 + CALL)\n"},
	{"binl", "print(CALL * 2)\n"},
	{"cmp", "print(CALL == 2)\n"},
	{"logic", "print(true && CALL == 2)\n"},
	{"not", "print(!(CALL == 2))\n"},
	{"group", "print((CALL) + 1)\n"},
	{"if", "if CALL == 3 {\n print(\"t\")\n}\n"},
	{"elseif", "if false {\n print(\"t\")\n} else if CALL == 3 {\n print(\"u\")\n}\n"},
	{"inif", "if true {\n print(CALL)\n}\n"},
	{"inelse", "if false {\n print(1)\n} else {\n print(CALL)\n}\n"},
	{"inelseif", "if false {\n print(1)\n} else if true {\n print(CALL)\n}\n"},
	{"notrun", "if false {\n print(CALL)\n}\nprint(\"e\")\n"},
	{"switch", "switch CALL {\ncase 3:\n print(\"t\")\n}\n"},
	{"case", "switch 1 {\ncase CALL:\n print(\"t\")\n}\n"},
	{"incase", "switch 1 {\ncase 1:\n print(CALL)\n}\n"},
	{"indefault", "switch 1 {\ndefault:\n print(CALL)\n}\n"},
	{"forinit", "for z := CALL; z < 1; z++ {\n}\n"},
	{"forcond", "for z := 0; z + CALL < 1; z++ {\n}\n"},
	{"forpost", "for z := 0; z < 1; z += 1 + CALL * 0 {\n}\n"},
	{"while", "for CALL < 0 {\n}\n"},
	{"infor", "for z := 0; z < 2; z++ {\n print(CALL)\n}\n"},
	{"forever", "for {\n print(CALL)\n break\n}\n"},
	{"range", "for z, y := range []int{CALL} {\n print(z, y)\n}\n"},
	{"inrange", "for z, y := range \"ab\" {\n print(z, y, CALL)\n}\n"},
	{"slice", "z := []int{1, CALL}\nprint(z[1])\n"},
	{"index", "z := []int{1, 2}\nprint(z[CALL * 0])\n"},
	{"setindex", "z := []int{1, 2}\nz[CALL * 0] = 4\nprint(z[0])\n"},
	{"setvalue", "z := []int{1, 2}\nz[0] = CALL\nprint(z[0])\n"},
	{"substr", "z := \"abc\"\nprint(z[CALL * 0])\n"},
	{"substr1", "z := \"abc\"\nprint(z[CALL * 0:2])\n"},
	{"substr2", "z := \"abc\"\nprint(z[:CALL * 0 + 1])\n"},
	{"itoa", "print(itoa(CALL))\n"},
	{"arg", "print(wrap(CALL))\n"},
	{"argarg", "print(wrap(wrap(CALL)))\n"},
	{"len", "print(len(itoa(CALL)))\n"},
	{"copy", "z := []int{1}\ncopy(z, []int{CALL})\nprint(z[0])\n"},
	{"panic", "print(\"p\")\npanic(itoa(CALL))\n"},
	{"write", "write(\"f\", itoa(CALL))\nprint(read(\"f\"))\n"},
	{"exists", "print(exists(itoa(CALL)))\n"},
}

// linkPlaces puts a piece of code somewhere; HERE is the code, DEFS what it needs.
var linkPlaces = []struct {
	key string
	mk  func(defs, code string) *Project
}{
	{"top", func(d, s string) *Project { return files("main.tsh", "import l \"l.tsh\"\n"+d+s, "l.tsh", linkLib) }},
	{"func", func(d, s string) *Project {
		return files("main.tsh", "import l \"l.tsh\"\n"+d+"func f() {\n"+s+"}\nf()\n", "l.tsh", linkLib)
	}},
	{"func2", func(d, s string) *Project {
		return files("main.tsh", "import l \"l.tsh\"\n"+d+"func e() {\n"+s+"}\nfunc f() {\n e()\n}\nfunc g() {\n f()\n}\nif true {\n g()\n}\n", "l.tsh", linkLib)
	}},
	{"module", func(d, s string) *Project {
		return files("main.tsh", "import m \"m.tsh\"\nprint(\"main\")\n", "m.tsh", "import l \"l.tsh\"\n"+d+s, "l.tsh", linkLib)
	}},
	{"modfunc", func(d, s string) *Project {
		return files("main.tsh", "import m \"m.tsh\"\nm.Run()\n", "m.tsh", "import l \"l.tsh\"\n"+d+"func Run() {\n"+s+"}\n", "l.tsh", linkLib)
	}},
	{"modpriv", func(d, s string) *Project {
		return files("main.tsh", "import m \"m.tsh\"\nm.Run()\n", "m.tsh", "import l \"l.tsh\"\n"+d+"func run() {\n"+s+"}\nfunc Run() {\n run()\n}\n", "l.tsh", linkLib)
	}},
	{"deep", func(d, s string) *Project {
		return files("main.tsh", "import a \"a.tsh\"\nfunc f() {\n a.Go()\n}\nf()\n", "a.tsh", "import m \"m.tsh\"\nfunc Go() {\n m.Run()\n}\n", "m.tsh", "import l \"l.tsh\"\n"+d+"func Run() {\n"+s+"}\n", "l.tsh", linkLib)
	}},
	{"modtop2", func(d, s string) *Project {
		return files("main.tsh", "import (\n a \"a.tsh\"\n m \"m.tsh\"\n)\na.Go()\n", "a.tsh", "import m \"m.tsh\"\nfunc Go() {\n m.Run()\n}\n", "m.tsh", "import l \"l.tsh\"\n"+d+"func Run() {\n"+s+"}\nRun()\n", "l.tsh", linkLib)
	}},
}

const linkLib = "count := 0\nfunc last(p int) int {\n count += p\n print(\"l\", count)\n return count\n}\nfunc mid(p int) int {\n return last(p) + 1\n}\nfunc Pub(p int) int {\n return mid(p)\n}\nfunc Other() {\n print(\"other\")\n}\nfunc unused() {\n print(\"unused\")\n}\n"

const linkDefs = "func wrap(p int) int {\n print(\"w\", p)\n return p + 10\n}\nfunc low(p int) int {\n print(\"low\", p)\n return p\n}\nfunc own(p int) int {\n return low(p) * 2\n}\nfunc dead() {\n own(1)\n}\n"

// graph builds a program from the import edges between its files. Every file has the same names in it.
func linkGraph(names []string, edge func(i, j int) bool, style int) *Project {
	p := &Project{Main: "/w/main.tsh", Files: map[string]string{}}
	for i, n := range names {
		var imps, calls []string
		for j, m := range names {
			if !edge(i, j) {
				continue
			}
			alias := m
			switch style {
			case 1:
				alias = "x" + fmt.Sprint(len(imps))
			case 2:
				alias = "state"
				if len(imps) > 0 {
					alias = fmt.Sprintf("helper%d", len(imps))
				}
			}
			imps = append(imps, fmt.Sprintf("%s \"%s.tsh\"", alias, m))
			calls = append(calls, fmt.Sprintf("print(%s.Show(%d))", alias, 10*i+j))
			if style == 2 {
				imps = append(imps, fmt.Sprintf("again%d \"./%s.tsh\"", j, m))
				calls = append(calls, fmt.Sprintf("print(again%d.Show(%d))", j, 100+j))
			}
		}
		var b strings.Builder
		if len(imps) == 1 && style != 1 {
			b.WriteString("import " + imps[0] + "\n")
		} else if len(imps) > 0 {
			b.WriteString("import (\n " + strings.Join(imps, "\n ") + "\n)\n")
		}
		fmt.Fprintf(&b, "print(\"%s starts\")\ntotal := %d\n", n, i+1)
		fmt.Fprintf(&b, "func helper(p int) int {\n total += p\n return total\n}\n")
		fmt.Fprintf(&b, "func Show(p int) int {\n local := p * 2\n print(\"%s\", local, total)\n", n)
		if len(calls) > 0 && i > 0 {
			b.WriteString(" " + calls[0] + "\n")
		}
		fmt.Fprintf(&b, " return helper(p)\n}\n")
		for _, s := range calls {
			b.WriteString(s + "\n")
		}
		if style == 1 {
			b.WriteString("if total > 0 {\n total++\n print(total)\n}\n")
		}
		fmt.Fprintf(&b, "print(\"%s ends\", total)\n", n)
		p.Files["/w/"+n+".tsh"] = b.String()
	}
	return p
}

func (c *Ctx) linkCases() {
	// calls at every position of every place
	for _, s := range callSites {
		for _, pl := range linkPlaces {
			for ki, call := range []string{"l.Pub(2)", "own(2)", "own(l.Pub(1))"} {
				c.linked(fmt.Sprintf("site/%s/%s/%d", s.key, pl.key, ki), pl.mk(linkDefs, strings.ReplaceAll(s.src, "CALL", call)))
			}
		}
	}
	// returned and multi-valued calls
	for _, s := range []schema{
		{"return", "func f() int {\n return l.Pub(1)\n}\nprint(f())\n"},
		{"return2", "func f() (int, int) {\n return 1, l.Pub(1)\n}\nx, y := f()\nprint(x, y)\n"},
		{"returnexpr", "func f() int {\n return 1 + own(l.Pub(1))\n}\nprint(f())\n"},
		{"returnif", "func f(p int) int {\n if p == 1 {\n  return l.Pub(1)\n }\n return own(3)\n}\nprint(f(1), f(2))\n"},
		{"multi", "func two() (int, int) {\n return own(1), l.Pub(2)\n}\nfunc f() {\n x, y := two()\n print(x, y)\n x, y = two()\n print(x, y)\n}\nf()\n"},
		{"app", "@K_p(itoa(l.Pub(1)))\n"},
		{"cap", "x, e, k := @K_p(itoa(l.Pub(1)))\nprint(x, e, k)\n"},
		{"pipe", "@K_p(\"a\") | @K_q(itoa(own(1)))\n"},
	} {
		for _, pl := range linkPlaces {
			if strings.Contains(s.src, "func ") && strings.Contains(pl.key, "func") || pl.key == "deep" || pl.key == "modpriv" || pl.key == "modtop2" {
				if strings.Contains(s.src, "func ") {
					continue
				}
			}
			p := pl.mk(linkDefs, s.src)
			if strings.Contains(s.src, "@") {
				c.program("values/"+s.key+"/"+pl.key, "", progOpt{proj: p, worlds: cmdWorlds()[:1]})
				continue
			}
			c.linked("values/"+s.key+"/"+pl.key, p)
		}
	}
	// import graphs
	names := []string{"main", "a", "b", "c"}
	for g := 0; g < 64; g++ {
		k := 0
		bit := map[[2]int]bool{}
		for i := 0; i < 4; i++ {
			for j := i + 1; j < 4; j++ {
				bit[[2]int{i, j}] = g>>k&1 == 1
				k++
			}
		}
		for style := 0; style < 3; style++ {
			c.linked(fmt.Sprintf("graph/%02d/%d", g, style), linkGraph(names, func(i, j int) bool { return bit[[2]int{i, j}] }, style))
		}
	}
	// graphs with cycles
	n3 := []string{"main", "a", "b"}
	for g := 0; g < 512; g++ {
		p := linkGraph(n3, func(i, j int) bool { return g>>(3*i+j)&1 == 1 }, 0)
		c.linked(fmt.Sprintf("digraph/%03d", g), p)
	}
	if !c.quick() {
		for g := 0; g < 1<<16; g += 5 {
			p := linkGraph(names, func(i, j int) bool { return g>>(4*i+j)&1 == 1 }, g%3)
			c.linked(fmt.Sprintf("digraph4/%05d", g), p)
		}
		n5 := []string{"main", "a", "b", "c", "d"}
		for g := 0; g < 1024; g++ {
			k := 0
			bit := map[[2]int]bool{}
			for i := 0; i < 5; i++ {
				for j := i + 1; j < 5; j++ {
					bit[[2]int{i, j}] = g>>k&1 == 1
					k++
				}
			}
			c.linked(fmt.Sprintf("graph5/%04d", g), linkGraph(n5, func(i, j int) bool { return bit[[2]int{i, j}] }, g%3))
		}
	}
	// content hashes
	lib := "base := 7\nprint(\"lib\", base)\nnames := []string{\"p\", \"q\"}\nfunc add(p int) int {\n sum := base + p\n base = sum\n return sum\n}\nfunc Add(p int) int {\n for i, v := range names {\n  print(i, v)\n }\n return add(p)\n}\nif base == 7 {\n base++\n inner := base\n print(inner)\n}\nfor i := 0; i < 2; i++ {\n names[i] = names[i] + \"x\"\n}\nbase, other := 5, base\nprint(base, other, Add(1))\n"
	// "base, other :=" redefines base in place
	for _, h := range []string{"0000000", "1234567", "9999999", "1e10000", "0x12345", "e123456", "abcdef0", "fffffff", "f1a2b3c", "00a0b0c", "deadbee", "f123456", "f0"} {
		p := files("main.tsh", "import l \"l.tsh\"\nprint(l.Add(2))\nprint(l.Add(3))\nfunc f() {\n print(l.Add(4))\n}\nf()\n", "l.tsh", lib)
		p.Digest = map[string]string{"/w/l.tsh": strings.ReplaceAll(h, "x", "0")}
		c.linked("hash/"+h, p)
		p2 := files("main.tsh", "import m \"m.tsh\"\nprint(m.Go())\n", "m.tsh", "import l \"l.tsh\"\nbase := 3\nfunc Go() int {\n base += l.Add(base)\n return base\n}\n", "l.tsh", lib)
		p2.Digest = map[string]string{"/w/m.tsh": strings.ReplaceAll(h, "x", "0")}
		c.linked("hash2/"+h, p2)
		// the beginning of the hashes may even coincide
		p3 := files("main.tsh", "import (\n m \"m.tsh\"\n n \"n.tsh\"\n)\nprint(m.Go(1), n.Go(1), m.Go(2), n.Go(2))\n",
			"m.tsh", "state := 1\nfunc step(p int) int {\n state += p\n return state\n}\nfunc Go(p int) int {\n return step(p)\n}\n",
			"n.tsh", "state := 50\nfunc step(p int) int {\n state -= p\n return state\n}\nfunc Go(p int) int {\n return step(p)\n}\n")
		p3.Digest = map[string]string{"/w/m.tsh": strings.ReplaceAll(h, "x", "0") + "0000000000", "/w/n.tsh": strings.ReplaceAll(h, "x", "0") + "0000000001"}
		c.linked("collide/"+h, p3)
	}
	// one file nested in another whose hash begins alike
	{
		p := files("main.tsh", "import m \"m.tsh\"\nprint(m.Go(1))\nprint(m.Go(2))\n", "m.tsh", "import n \"n.tsh\"\nstate := 1\nfunc Go(p int) int {\n state += n.Go(p)\n return state\n}\n", "n.tsh", "state := 50\nfunc Go(p int) int {\n state -= p\n return state\n}\n")
		p.Digest = map[string]string{"/w/m.tsh": "abcdef0", "/w/n.tsh": "abcdef0"}
		c.linked("collide/nested", p)
	}
	// files with the same content are different files
	twin := "state := 1\nfunc Step(p int) int {\n state += p\n print(\"step\", state)\n return state\n}\nprint(\"twin\", state)\n"
	c.linked("twin/two", files("main.tsh", "import (\n a \"a.tsh\"\n b \"b.tsh\"\n)\nprint(a.Step(1))\nprint(b.Step(5))\nprint(a.Step(1))\n", "a.tsh", twin, "b.tsh", twin))
	c.linked("twin/dir", files("main.tsh", "import (\n a \"a/x.tsh\"\n b \"b/x.tsh\"\n)\nprint(a.Step(1))\nprint(b.Step(5))\nprint(a.Step(1))\n", "a/x.tsh", twin, "b/x.tsh", twin))
	c.linked("twin/nested", files("main.tsh", "import (\n a \"a/x.tsh\"\n b \"b/x.tsh\"\n)\nprint(a.Use())\nprint(b.Use())\nprint(a.Use())\n",
		"a/x.tsh", "import s \"s.tsh\"\nfunc Use() int {\n return s.Val(2)\n}\n", "b/x.tsh", "import s \"s.tsh\"\nfunc Use() int {\n return s.Val(2)\n}\n",
		"a/s.tsh", "v := 1\nfunc Val(p int) int {\n v += p\n return v\n}\n", "b/s.tsh", "v := 100\nfunc Val(p int) int {\n v -= p\n return v\n}\n"))
	c.linked("twin/three", files("main.tsh", "import (\n a \"a.tsh\"\n b \"b.tsh\"\n c \"c.tsh\"\n)\nprint(a.Step(1), b.Step(5), c.Step(7), a.Step(1), b.Step(1))\n", "a.tsh", twin, "b.tsh", twin, "c.tsh", twin))

	// names
	two := "g := 1\nfunc f() int {\n return g\n}\nfunc F() int {\n return f()\n}\nfunc Set(p int) {\n g = p\n}\n"
	twoB := "g := 100\nfunc f() int {\n return g + 1\n}\nfunc F() int {\n return f()\n}\nfunc Set(p int) {\n g = p * 2\n}\n"
	mainUse := "g := 1000\nfunc f() int {\n return g + 2\n}\nfunc F() int {\n return f() + a.F()\n}\nfunc Set(p int) {\n g = p * 3\n a.Set(p)\n}\nSet(5)\nb.Set(7)\nprint(g, f(), F(), a.F(), b.F())\ng++\nprint(g, f(), F(), a.F(), b.F())\n"
	c.linked("names/same", files("main.tsh", "import (\n a \"a.tsh\"\n b \"b.tsh\"\n)\n"+mainUse, "a.tsh", two, "b.tsh", twoB))
	for _, al := range [][2]string{{"f", "g"}, {"F", "Set"}, {"g", "F"}, {"main", "l"}, {"i", "j"}, {"a1", "_"}, {"A", "a"}, {"stringz", "String"}, {"bash", "cmd"}} {
		s := strings.ReplaceAll(strings.ReplaceAll(mainUse, "a.", "K_"+al[0]+"."), "b.", "K_"+al[1]+".")
		c.linked("names/alias/"+al[0]+"/"+al[1], files("main.tsh", "import (\n K_"+al[0]+" \"a.tsh\"\n K_"+al[1]+" \"b.tsh\"\n)\n"+s, "a.tsh", two, "b.tsh", twoB))
	}
	c.linked("names/swap", files("main.tsh", "import (\n a \"a.tsh\"\n b \"b.tsh\"\n)\nprint(a.F(), b.F())\n", "a.tsh", "import b \"c.tsh\"\nfunc F() int {\n return b.F() + 1\n}\n", "b.tsh", "import a \"c.tsh\"\nfunc F() int {\n return a.F() * 2\n}\n", "c.tsh", "func F() int {\n print(\"c\")\n return 20\n}\n"))
	c.linked("names/locals", files("main.tsh", "import a \"a.tsh\"\nx := 1\ni := 9\np := 8\nfunc f(p int) int {\n x = x + p\n y := a.F(p)\n return y + p\n}\nprint(f(3), x, i, a.F(1))\nfor i2 := 0; i2 < 2; i2++ {\n print(a.F(i2), i2, i)\n}\n", "a.tsh", "x := 40\nfunc F(p int) int {\n y := p\n for i := 0; i < 2; i++ {\n  y += x\n }\n x++\n return y\n}\n"))
	c.linked("names/shadowparam", files("main.tsh", "import a \"a.tsh\"\nprint(a.Run(3))\n", "a.tsh", "func sub(q int) int {\n return q - 1\n}\nfunc Run(q int) int {\n r := sub(q)\n return r + q\n}\n"))
	c.linked("names/slices", files("main.tsh", "import a \"a.tsh\"\ns := []int{1, 2}\na.Fill(s)\nprint(s[0], s[1], len(s))\nt := a.Get()\nt[0] = 9\nprint(a.First())\nprint(t[0])\n", "a.tsh", "s := []int{5}\nfunc Fill(t []int) {\n t[0] = s[0]\n t[2] = 7\n}\nfunc Get() []int {\n return s\n}\nfunc First() int {\n return s[0]\n}\n"))
	// access
	lib2 := "pub := 1\nPub := 2\nfunc F() int {\n return 1\n}\nfunc priv() int {\n return 2\n}\nfunc Arg(p string) string {\n return p + \"!\"\n}\nfunc Two() (int, string) {\n return 1, \"s\"\n}\nfunc None() {\n}\nfunc K__hid() int {\n return 3\n}\nfunc K___X() int {\n return K__hid()\n}\n"
	for i, s := range []string{
		"print(l.F())", "print(l.priv())", "print(l.Nope())", "print(F())", "print(priv())", "print(m.F())", "print(l.f())", "print(L.F())", "l.priv()", "l.None()", "x := l.None()", "x := l.F()\nprint(x)", "x, y := l.Two()\nprint(x, y)", "x := l.Two()", "x, y := l.F()",
		"print(l.Arg(\"a\"))", "print(l.Arg(1))", "print(l.Arg())", "print(l.Arg(\"a\", \"b\"))", "print(l.F(1))", "x := 1 + l.Arg(\"a\")", "x := 1 + l.F()\nprint(x)", "if l.F() {\n}", "l.F", "l.pub = 1", "print(pub)", "print(Pub)", "pub = 1", "pub := 5\nprint(pub, l.F())", "Pub := 5\nprint(Pub)",
		"func F() int {\n return 5\n}\nprint(F(), l.F())", "func priv() int {\n return 5\n}\nprint(priv(), l.F())", "func None() {\n}\nNone()\nl.None()", "l := 5\nprint(l, l.F())", "func l() int {\n return 6\n}\nprint(l(), l.F())",
		"func f(l int) int {\n return l + l.F()\n}\nprint(f(2))", "l.l.F()", "x := l\n", "x := []int{l.F(), l.F()}\nprint(x[1])", "main.F()", "print(l.F() == 1)", "print(l.main())", "print(@l.F())", "print(l.K__hid())", "l.K___X()", "print(K__hid())",
		"func Own() int {\n return 5\n}\nprint(Own())", "func Own() int {\n return 5\n}\nprint(l.Own())", "func own() int {\n return 5\n}\nprint(l.own())", "func Own() {\n}\nl.Own()", "func Own(p int) (int, int) {\n return p, p\n}\nx, y := l.Own(1)\nprint(x, y)",
		"Own := 5\nprint(l.Own)", "Own := 5\nl.Own = 6", "Own := []int{5}\nprint(l.Own[0])", "func Own() int {\n return 5\n}\nfunc q() int {\n return l.Own() + 1\n}\nprint(q())", "func Own(p int) int {\n return p\n}\nprint(l.F() + Own(l.Own(3)))",
	} {
		c.linked(fmt.Sprintf("access/%02d", i), files("main.tsh", "import l \"l.tsh\"\n"+s+"\n", "l.tsh", lib2))
		c.linked(fmt.Sprintf("access/module/%02d", i), files("main.tsh", "import k \"k.tsh\"\nprint(\"m\")\n", "k.tsh", "import l \"l.tsh\"\n"+s+"\n", "l.tsh", lib2))
		if !strings.Contains(s, "func") {
			c.linked(fmt.Sprintf("access/func/%02d", i), files("main.tsh", "import l \"l.tsh\"\nfunc q() {\n"+s+"\n}\nq()\n", "l.tsh", lib2))
		}
	}
	// a file only sees its own imports and nothing of the importing file
	for i, s := range []string{"print(b.F())", "print(g)", "mine()", "print(b.K_g)", "g = 1", "g := 4\nprint(g)", "func mine() {\n print(\"x\")\n}\nmine()", "main.mine()", "b.G()"} {
		c.linked(fmt.Sprintf("isolated/%d", i), files("main.tsh", "import (\n b \"b.tsh\"\n a \"a.tsh\"\n)\ng := 3\nfunc mine() {\n print(\"mine\")\n}\nmine()\nprint(b.F(), a.A())\n", "b.tsh", "func F() int {\n return 3\n}\n", "a.tsh", s+"\nfunc A() int {\n return 4\n}\n"))
		c.linked(fmt.Sprintf("transitive/%d", i), files("main.tsh", "import a \"a.tsh\"\n"+s+"\nprint(a.A())\n", "b.tsh", "g := 3\nfunc F() int {\n return 3\n}\nfunc G() {\n}\nfunc mine() {\n}\n", "a.tsh", "import b \"b.tsh\"\nfunc A() int {\n return 4 + b.F()\n}\n"))
	}
	// import forms
	libf := "print(\"lib\")\nfunc F() int {\n return 4\n}\n"
	for i, s := range []string{
		"import l \"l.tsh\"\n", "import (\n l \"l.tsh\"\n)\n", "import \"l.tsh\"\n", "import l \"./l.tsh\"\n", "import l \"sub/../l.tsh\"\n", "import l \"/w/l.tsh\"\n", "import l \"/w/sub/../l.tsh\"\n", "import l \"nope.tsh\"\n", "import l \"sub/l.tsh\"\n", "import l \"l\"\n", "import l \"../w/l.tsh\"\n",
		"import (\n l \"l.tsh\"\n l \"l.tsh\"\n)\n", "import (\n l \"l.tsh\"\n l \"sub/l.tsh\"\n)\n", "import (\n l \"l.tsh\"\n m \"l.tsh\"\n)\nprint(m.F())\n", "import (\n m \"./l.tsh\"\n l \"l.tsh\"\n n \"/w/l.tsh\"\n)\nprint(m.F(), n.F())\n", "import l \"main.tsh\"\n", "import (\n l \"l.tsh\"\n m \"main.tsh\"\n)\n",
		"import l l.tsh\n", "import l \"\"\n", "import \"\"\n", "import l\n", "import (\n)\n", "import (l \"l.tsh\")\n", "import l \"sub\"\n", "import (\n l \"l.tsh\"\n m \"sub/l.tsh\"\n)\nprint(m.F())\n", "import \"std1\"\nimport l \"l.tsh\"\n", "import l \"std1\"\n", "import l \"std1.tsh\"\n", "import l \"sub/std2\"\n",
		"print(1)\nimport l \"l.tsh\"\n", "import (\n \"std1\"\n l \"l.tsh\"\n)\nprint(K_std1.S())\n", "import (\n \"std1\"\n \"std1\"\n)\n", "import (\n \"std1\"\n l \"std1\"\n)\nprint(K_std1.S())\n", "import (\n \"std1\"\n K_std1 \"l.tsh\"\n)\n", "import (\n \"std1.tsh\"\n l \"l.tsh\"\n)\nprint(K_std1.S())\n", "import (\n \"sub/std2\"\n l \"l.tsh\"\n)\nprint(K_std2.S())\n",
		"import (\n \"nostd\"\n l \"l.tsh\"\n)\n",
	} {
		if strings.Contains(s, "\nimport l") && strings.HasPrefix(s, "import") {
			continue // whether several import statements are allowed is not documented
		}
		for _, use := range []string{"print(l.F())\n", "print(l.S())\n"} {
			p := files("main.tsh", s+use, "l.tsh", libf, "sub/l.tsh", "print(\"sub\")\nfunc F() int {\n return 5\n}\n")
			p.Files["/opt/tsh/std/std1.tsh"] = "func S() string {\n return \"s1\"\n}\n"
			p.Files["/opt/tsh/std/sub/std2.tsh"] = "func S() string {\n return \"s2\"\n}\n"
			c.linked(fmt.Sprintf("form/%02d/%s", i, use[8:9]), p)
		}
	}
	// standard files reached several ways
	{
		p := files("main.tsh", "import (\n \"std1\"\n a \"a.tsh\"\n)\nprint(K_std1.S(1))\nprint(a.A())\nprint(K_std1.S(2))\n", "a.tsh", "import s \"std1\"\nfunc A() int {\n return s.S(10)\n}\n")
		p.Files["/opt/tsh/std/std1.tsh"] = "n := 0\nfunc s(p int) int {\n n += p\n return n\n}\nfunc S(p int) int {\n return s(p)\n}\n"
		c.linked("std/shared", p)
		p = files("main.tsh", "import (\n \"std1\"\n l \"std1.tsh\"\n)\nprint(l.S(1))\n", "std1.tsh", "func S(p int) int {\n return 77\n}\n")
		p.Files["/opt/tsh/std/std1.tsh"] = "func S(p int) int {\n return p\n}\n"
		c.linked("std/local", p)
	}
	// relative to the importing file
	c.linked("relative", files("main.tsh", "import a \"sub/a.tsh\"\nprint(a.A())\n", "sub/a.tsh", "import b \"b.tsh\"\nimport2 := 1\nfunc A() int {\n return b.B() + import2\n}\n", "sub/b.tsh", "import c \"../c.tsh\"\nfunc B() int {\n return c.C() + 10\n}\n", "c.tsh", "func C() int {\n return 100\n}\n", "b.tsh", "func B() int {\n return -1\n}\n", "sub/c.tsh", "func C() int {\n return -2\n}\n"))
	// errors of imported files
	for i, s := range []string{"x := \"s\" + 1\n", "print(y)\n", "func F( {\n}\n", "break\n", "func F() int {\n}\n", "import x \"nope.tsh\"\n", "func F() int {\n return \"s\"\n}\n", "x := \"unterminated\nprint(1)\n"} {
		c.linked(fmt.Sprintf("broken/%d", i), files("main.tsh", "import l \"l.tsh\"\nprint(1)\n", "l.tsh", s))
		c.linked(fmt.Sprintf("broken/deep/%d", i), files("main.tsh", "import k \"k.tsh\"\nprint(1)\n", "k.tsh", "import l \"l.tsh\"\nprint(2)\n", "l.tsh", s))
	}
	// removal of functions
	for i, s := range []string{
		"func a() {\n print(\"a\")\n}\nfunc b() {\n a()\n}\nfunc c() {\n b()\n}\nc()\n",
		"func a() {\n print(\"a\")\n}\nfunc b() {\n a()\n}\nfunc c() {\n b()\n}\nfunc d() {\n c()\n}\nb()\n",
		"func a() {\n print(\"a\")\n}\nfunc b() {\n a()\n}\nb()\na()\nb()\n",
		"func a() {\n print(\"a\")\n}\nfunc b() {\n if true {\n  for i := 0; i < 1; i++ {\n   switch i {\n   case 0:\n    a()\n   }\n  }\n }\n}\nif false {\n} else {\n b()\n}\n",
		"func a() int {\n return 1\n}\nx := a()\nfunc b() int {\n return a() + x\n}\ny := b()\nprint(x, y)\n",
		"func a(p int) int {\n return p\n}\nfunc b(p int) int {\n return a(a(p))\n}\nprint(b(b(1)))\n",
		"func dead() {\n dead2()\n}\nprint(1)\n",
		"func dead2() {\n}\nfunc dead() {\n dead2()\n}\nprint(1)\n",
		"func a() {\n}\nfunc b() {\n a()\n}\nfunc c() {\n a()\n b()\n}\nfunc d() {\n b()\n c()\n}\nfor i := 0; i < 2; i++ {\n d()\n}\n",
		"func shared() int {\n print(\"s\")\n return 1\n}\nfunc a() int {\n return shared()\n}\nfunc b() int {\n return shared()\n}\nprint(a())\n",
		"func one() {\n print(1)\n}\nfunc two() {\n one()\n}\nfunc three() {\n two()\n one()\n}\nfunc four() {\n three()\n}\nfunc five() {\n four()\n two()\n}\nfive()\n",
	} {
		c.linked(fmt.Sprintf("removal/%d", i), oneFile(s))
		c.linked(fmt.Sprintf("removal/module/%d", i), asModule(s))
		c.linked(fmt.Sprintf("removal/both/%d", i), files("main.tsh", "import l \"l.tsh\"\n"+s+"l.Q()\n", "l.tsh", s+"func Q() {\n print(\"q\")\n}\n"))
		c.linked(fmt.Sprintf("removal/both2/%d", i), files("main.tsh", "import l \"l.tsh\"\nl.Q()\nfunc main() {\n l.Q()\n}\nmain()\n", "l.tsh", "import m \"m.tsh\"\nfunc Q() {\n print(\"q\")\n m.Z()\n}\n", "m.tsh", s+"func Z() {\n print(\"z\")\n}\n"))
	}
}

func init() {
	checks["C09"] = &propCheck{level: "translation_validation",
		rule: "programs of up to five files (all import graphs up to four files, cyclic graphs of three, every position of a call in every kind of file, chosen content hashes, equal contents, equal names, all import forms, accesses to private and foreign names) are translated by abstract interpretation of the compiler's SSA; the abstract run of both scripts must agree with the composition of the modules in the reference semantics, and programs which do not link must be rejected",
		run:  func(c *Ctx) { c.scaleLinks(); c.linkCases() }}
}
