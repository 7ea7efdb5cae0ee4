package main

import (
	"crypto/sha256"
	"fmt"
	"path/filepath"
	"strings"
)

// ---------------------------------------------------------------- C14: purity

// place is where and when a transpilation happens.
type place struct {
	base  string            // directory that replaces /w
	exe   string            // directory of the executable
	cwd   string            // working directory
	main  string            // how the main file is named; "" is its absolute path
	world int               // see impure.go
	extra map[string]string // further files, relative to the base directory or absolute
}

var home = place{base: "/w", exe: "/opt/tsh", cwd: "/w"}

func (pl place) path(f string) string {
	switch {
	case f == "/w" || strings.HasPrefix(f, "/w/"):
		return filepath.Clean(pl.base + f[2:])
	case strings.HasPrefix(f, "/opt/tsh/"):
		return filepath.Clean(pl.exe + f[8:])
	}
	return f
}

func (pl place) mainPath(p *Project) string {
	if pl.main != "" {
		return pl.main
	}
	return pl.path(p.Main)
}

// put replaces the modelled files by those of the project.
func (pl place) put(in *Interp, p *Project) {
	in.extra["digest"] = func(data string) string { return fmt.Sprintf("%x", sha256.Sum256([]byte(data))) }
	fs := in.fs()
	fs.Exe, fs.Cwd = pl.exe+"/tsh", pl.cwd
	fs.Files, fs.Dirs = map[string]string{}, map[string]bool{}
	add := func(f, t string) {
		fs.Files[f] = t
		for d := filepath.Dir(f); ; d = filepath.Dir(d) {
			fs.Dirs[d] = true
			if d == "/" {
				return
			}
		}
	}
	for f, t := range pl.extra {
		if !filepath.IsAbs(f) {
			f = pl.base + "/" + f
		}
		add(f, t)
	}
	for f, t := range p.Files {
		add(pl.path(f), t)
	}
	add(pl.exe+"/tsh", "\x7fELF")
	fs.Dirs[pl.cwd] = true
}

// pureOut is the observable outcome of one transpilation.
func pureOut(in *Interp, r Value) string {
	t, ok := r.(Tuple)
	if !ok || len(t) != 2 {
		in.undecided("unexpected result shape")
	}
	if e, ok := t[1].(Iface); ok && e.t != nil {
		return "\x00error"
	}
	return asStr(t[0]).flat()
}

// session runs body in one process.
func (c *Ctx) session(body func(in *Interp)) (string, string) {
	kind, msg := "", ""
	n := 0
	explore(c.w, newAtoms(), 2, func(in *Interp) { in.maxSteps = 60_000_000 }, func(in *Interp) Value {
		body(in)
		return Tuple{S(""), nilErr}
	}, func(r *PathResult) {
		n++
		s := summarize(r)
		c.analysed(s.Funcs)
		if n == 1 {
			kind, msg = s.Kind, s.Err
		} else {
			kind, msg = "undecided", "more than one path"
		}
		if v, ok := r.In.extra["mapranges"].(int); ok {
			c.count("map iterations in a permuted order", v)
		}
		if v, ok := r.In.extra["impure"].(int); ok {
			c.count("reads of an impure source", v)
		}
	})
	return kind, msg
}

// alone is the outcome in a fresh process.
func (c *Ctx) alone(p *Project, pl place, target string) string {
	out := ""
	kind, msg := c.session(func(in *Interp) {
		in.extra["world"] = pl.world
		pl.put(in, p)
		out = pureOut(in, c.a.runTranspile(in, c.a.newTranspiler(in), pl.mainPath(p), c.a.newConverter(in, target)))
	})
	if kind != "script" {
		return "\x00" + kind + ": " + stripPos(msg)
	}
	return out
}

func outcomeDiff(want, got string) (string, string) {
	switch {
	case want == got:
		return "", ""
	case strings.HasPrefix(got, "\x00error"):
		return "the program is rejected", ""
	case strings.HasPrefix(want, "\x00error"):
		return "the program is translated", ""
	case strings.HasPrefix(got, "\x00"):
		return got[1:], ""
	}
	return "the script differs", scriptDiff(newAtoms(), want, got)
}

func projText(p *Project) string {
	var b strings.Builder
	for _, f := range sortedKeys(p.Files) {
		if len(p.Files[f]) < 3000 {
			fmt.Fprintf(&b, "--- file %s\n%s\n", f, p.Files[f])
		}
	}
	return b.String()
}

type pureProg struct {
	key string
	p   *Project
}

func concreteProject(p *Project) *Project {
	q := &Project{Main: p.Main, Files: map[string]string{}}
	for f, t := range p.Files {
		q.Files[f] = concretise(t)
	}
	return q
}

// pureCorpus: programs which exercise every emission and every map of the compiler.
func (c *Ctx) pureCorpus() []pureProg {
	var r []pureProg
	for _, s := range totalCorpus() {
		p := oneFile(concretise(s.src))
		for f, t := range layoutFiles {
			p.Files[f] = t
		}
		p.Files["/opt/tsh/std/strings.tsh"] = "n := 0\nfunc Contains(s string, t string) bool {\n n++\n return s == t\n}\n"
		r = append(r, pureProg{"form/" + s.key, p})
	}
	add := func(k string, f ...string) { r = append(r, pureProg{k, files(f...)}) }
	lib := func(n int) string {
		var b strings.Builder
		fmt.Fprintf(&b, "g%d := %d\nh%d := \"h\"\n", n, n, n)
		for i := 0; i < 4; i++ {
			fmt.Fprintf(&b, "func p%d() int {\n g%d++\n return g%d\n}\nfunc P%d(a int, b string) (int, string) {\n x := p%d() + a\n for i := 0; i < x; i++ {\n  h%d += b\n }\n return x, h%d\n}\n", i, n, n, i, i, n, n)
		}
		return b.String()
	}
	add("link/many", "main.tsh", "import (\n a \"a.tsh\"\n b \"b.tsh\"\n c \"sub/c.tsh\"\n d \"sub/d.tsh\"\n)\nx, y := a.P0(1, \"a\")\nx, y = b.P1(x, y)\nx, y = c.P2(x, y)\nx, y = d.P3(x, y)\nprint(x, y)\n", "a.tsh", lib(1), "b.tsh", lib(2), "sub/c.tsh", lib(3), "sub/d.tsh", lib(4))
	add("link/dag", "main.tsh", "import (\n a \"a.tsh\"\n b \"b.tsh\"\n)\nprint(a.A(), b.B())\n", "a.tsh", "import c \"c.tsh\"\nfunc A() int {\n return c.C() + 1\n}\n", "b.tsh", "import c \"c.tsh\"\nfunc B() int {\n return c.C() * 2\n}\n", "c.tsh", "n := 5\nfunc C() int {\n n++\n return n\n}\n")
	add("link/twins", "main.tsh", "import (\n a \"a.tsh\"\n b \"b.tsh\"\n c \"c.tsh\"\n d \"s/d.tsh\"\n)\nprint(a.F(), b.F(), c.F(), d.F())\n", "a.tsh", "n := 1\nfunc F() int {\n n++\n return n\n}\n", "b.tsh", "n := 1\nfunc F() int {\n n++\n return n\n}\n", "c.tsh", "n := 1\nfunc F() int {\n n++\n return n\n}\n", "s/d.tsh", "n := 1\nfunc F() int {\n n++\n return n\n}\n")
	add("link/twins2", "main.tsh", "import (\n a \"a.tsh\"\n b \"b.tsh\"\n)\nprint(a.F(), b.F())\n", "a.tsh", "import l \"x/l.tsh\"\nfunc F() int {\n return l.G()\n}\n", "b.tsh", "import l \"y/l.tsh\"\nfunc F() int {\n return l.G()\n}\n", "x/l.tsh", "n := 1\nfunc G() int {\n n++\n return n\n}\n", "y/l.tsh", "n := 1\nfunc G() int {\n n++\n return n\n}\n")
	add("link/cycle", "main.tsh", "import a \"a.tsh\"\nprint(a.A())\n", "a.tsh", "import b \"b.tsh\"\nfunc A() int {\n return 1\n}\n", "b.tsh", "import a \"a.tsh\"\nfunc B() int {\n return 1\n}\n")
	std := files("main.tsh", "import (\n \"strings\"\n l \"l.tsh\"\n o \"more/other\"\n)\nprint(strings.Contains(\"a\", l.Name()), o.Two())\n", "l.tsh", "import s \"strings\"\nfunc Name() string {\n if s.Contains(\"x\", \"y\") {\n  return \"n\"\n }\n return \"m\"\n}\n")
	std.Files["/opt/tsh/std/strings.tsh"] = "n := 0\nfunc Contains(s string, t string) bool {\n n++\n return s == t\n}\nfunc Dead() {\n}\n"
	std.Files["/opt/tsh/std/more/other.tsh"] = "import s \"strings\"\nfunc Two() bool {\n return s.Contains(\"q\", \"r\")\n}\n"
	r = append(r, pureProg{"link/std", std})
	add("vars/many", "main.tsh", "a := 1\nb := 2\nc := \"x\"\nd := []int{1}\ne := []string{\"q\"}\nfunc f(p int, q string, r []int) (int, string) {\n x := p\n y := q + c\n r[len(r)] = x\n for i, v := range r {\n  if v > a {\n   z := i\n   x += z\n  } else {\n   w := v\n   x -= w\n  }\n }\n a = x\n return x, y\n}\nfunc g(p int) {\n x, y := f(p, \"k\", d)\n e[x] = y\n}\nfunc h() []int {\n return d\n}\nfunc i() bool {\n return a == b && len(h()) > 2 || exists(\"f\")\n}\nfor k := 0; k < 3; k++ {\n g(k)\n if i() {\n  print(k, a, e[0])\n }\n}\nswitch a {\ncase 1, 2:\n g(1)\ncase 3:\n print(\"3\")\ndefault:\n print(\"d\")\n}\ns := input(\"p\")\nwrite(\"f\", s, i())\nn := copy(d, []int{7})\nt := s[1:n]\nu, v, w2 := @ls(t) | @cat()\nprint(u, v, w2, t, read(\"f\"))\n")
	add("funcs/graph", "main.tsh", "func a() int {\n return 1\n}\nfunc b() int {\n return a() + 1\n}\nfunc c() int {\n return a() + b()\n}\nfunc d() {\n print(c(), b())\n}\nfunc dead1() {\n d()\n}\nfunc dead2() {\n dead1()\n}\nd()\nd()\n")
	add("error/lex", "main.tsh", "x := \"abc\n")
	add("error/late", "main.tsh", "func f() int {\n return 1\n}\nx := f()\nfor i := 0; i < 3; i++ {\n if x == i {\n  print(i)\n }\n}\nprint(unknown)\n")
	add("error/import", "main.tsh", "import l \"nope.tsh\"\nprint(1)\n")
	add("error/importbroken", "main.tsh", "import (\n a \"a.tsh\"\n l \"l.tsh\"\n)\nprint(l.F())\n", "a.tsh", "func A() int {\n return 1\n}\n", "l.tsh", "func F() int {\n for {\n  if true {\n   return \"x\"\n  }\n }\n}\n")
	add("error/missing", "other.tsh", "print(1)\n")
	r[len(r)-1].p.Main = "/w/main.tsh"
	return r
}

func (c *Ctx) pureCases() {
	corpus := c.pureCorpus()
	// other processes, other times, other environments, other places
	deep := "/very/deep/er/tree/of/directories/with a blank/and.dots/project"
	places := []struct {
		key string
		pl  place
	}{
		{"again", home},
		{"process/reverse", place{base: "/w", exe: "/opt/tsh", cwd: "/w", world: 1}},
		{"process/rotate", place{base: "/w", exe: "/opt/tsh", cwd: "/", world: 2}},
		{"process/shuffle3", place{base: "/w", exe: "/opt/tsh", cwd: "/tmp", world: 3}},
		{"process/shuffle4", place{base: "/w", exe: "/opt/tsh", cwd: "/w", world: 4}},
		{"moved", place{base: "/a", exe: "/opt/tsh", cwd: "/a"}},
		{"moved/deep", place{base: deep, exe: "/opt/tsh", cwd: "/w", world: 1}},
		{"moved/std", place{base: "/z/std", exe: "/usr/local/lib/typeshell/bin", cwd: "/", world: 2}},
		{"moved/name", place{base: "/x/main.tsh.d/i1234567_", exe: "/w", cwd: "/x", world: 3}},
		{"named/relative", place{base: "/w", exe: "/opt/tsh", cwd: "/w", main: "main.tsh"}},
		{"named/dot", place{base: "/w/v", exe: "/opt/tsh", cwd: "/w", main: "./v/main.tsh"}},
		{"named/dotdot", place{base: "/w/v", exe: "/opt/tsh", cwd: "/w/u/t", main: "../../v/main.tsh", world: 1}},
		{"named/detour", place{base: "/w", exe: "/opt/tsh", cwd: "/", main: "/w/../w/./main.tsh"}},
		{"crowd", place{base: "/w", exe: "/opt/tsh", cwd: "/w", extra: map[string]string{"main.sh": "echo", "main.bat": "@echo off", "zz.tsh": "print(2)\n", "aa.tsh": "x := \n", "sub/zz.tsh": "func F() {\n}\n", ".tsh": "x", "tsh.json": "{}", "main.tsh.bak": "?", "main": "print(5)\n", "std/strings.tsh": "func X() {\n}\n", "/opt/tsh/std/unused.tsh": "x := 1\n", "/opt/tsh/main.tsh": "print(9)\n", "/opt/tsh/a.tsh": "print(9)\n"}}},
	}
	for w := 5; w < c.n(8, 24); w++ {
		places = append(places, struct {
			key string
			pl  place
		}{fmt.Sprintf("process/shuffle%d", w), place{base: "/w", exe: "/opt/tsh", cwd: "/w", world: w}})
	}
	ref := make([]map[string]string, len(corpus))
	for i, g := range corpus {
		i, g := i, g
		ref[i] = map[string]string{}
		for _, t := range bothTargets {
			ref[i][t] = ""
		}
		c.do("reference/"+g.key, func() {
			for _, t := range bothTargets {
				c.obligation(1)
				r := c.alone(g.p, home, t)
				c.mu.Lock()
				ref[i][t] = r
				c.mu.Unlock()
				if strings.HasPrefix(r, "\x00") && !strings.HasPrefix(r, "\x00error") {
					c.violate("reference/"+g.key, t+": "+r[1:], projText(g.p))
				}
				if r == "" {
					c.violate("reference/"+g.key, t+": the script is empty", projText(g.p))
				}
			}
		})
	}
	c.runJobs()
	for i, g := range corpus {
		i, g := i, g
		for _, pl := range places {
			pl := pl
			c.do(pl.key+"/"+g.key, func() {
				for _, t := range bothTargets {
					c.obligation(1)
					if w, d := outcomeDiff(ref[i][t], c.alone(g.p, pl.pl, t)); w != "" {
						c.violate(pl.key+"/"+g.key, t+": "+w+" in another process, at another place or time", d+"\n"+projText(g.p))
					}
				}
			})
		}
	}
	// the programs of other checks in three processes
	for _, x := range corpora(c, 0.4) {
		x := x
		c.do("corpus/"+x.key, func() {
			p := x.concrete()
			for _, t := range bothTargets {
				want := c.alone(p, home, t)
				for w := 1; w < c.n(3, 6); w++ {
					c.obligation(1)
					pl := home
					pl.world = w
					if d, det := outcomeDiff(want, c.alone(p, pl, t)); d != "" {
						c.violate("corpus/"+x.key, t+": "+d+" in another process", det+"\n"+projText(p))
						return
					}
				}
				if want == "\x00error" {
					break
				}
			}
		})
	}
	// histories: every step has to give what a fresh process gives
	type step struct {
		prog   int
		target string
		object int // transpiler object
	}
	history := func(key string, steps []step, early bool, samePath bool, world int) {
		c.do(key, func() {
			for _, st := range steps {
				if r := ref[st.prog][st.target]; strings.HasPrefix(r, "\x00") && r != "\x00error" {
					return
				}
			}
			c.obligation(len(steps))
			at := 0
			kind, msg := c.session(func(in *Interp) {
				in.extra["world"] = world
				objs := map[int]Value{}
				convs := make([]Iface, len(steps))
				if early {
					for k, st := range steps {
						convs[k] = c.a.newConverter(in, st.target)
					}
				}
				var outs []string
				for k, st := range steps {
					at = k
					if objs[st.object] == nil {
						objs[st.object] = c.a.newTranspiler(in)
					}
					if !early {
						convs[k] = c.a.newConverter(in, st.target)
					}
					pl := home
					if !samePath {
						pl.base = fmt.Sprintf("/w/p%d", st.prog)
					}
					pl.put(in, corpus[st.prog].p)
					outs = append(outs, pureOut(in, c.a.runTranspile(in, objs[st.object], pl.mainPath(corpus[st.prog].p), convs[k])))
				}
				for k, st := range steps {
					if w, d := outcomeDiff(ref[st.prog][st.target], outs[k]); w != "" {
						var h []string
						for _, s := range steps[:k] {
							h = append(h, corpus[s.prog].key+"/"+s.target)
						}
						c.violate(key, st.target+": "+w+" after other transpilations", fmt.Sprintf("after: %s\n%s\n%s", strings.Join(h, ", "), d, projText(corpus[st.prog].p)))
						return
					}
				}
			})
			if kind != "script" {
				c.violate(key, kind+" in a sequence of transpilations: "+stripPos(msg), projText(corpus[steps[at].prog].p))
			}
		})
	}
	var progs []int
	for i, g := range corpus {
		if c.quick() && strings.HasPrefix(g.key, "form/rej/") && !strings.HasSuffix(g.key, "type") && !strings.HasSuffix(g.key, "two") {
			continue
		}
		progs = append(progs, i)
	}
	// all pairs, all targets
	for _, p := range progs {
		for _, q := range progs {
			if c.quick() && (p*7+q*3)%5 != 0 && p != q {
				continue
			}
			for ti, t := range bothTargets {
				for ui, u := range bothTargets {
					if c.quick() && p != q && (p+q+ti+ui)%2 != 0 {
						continue
					}
					history(fmt.Sprintf("after/%s/%s/%s/%s", corpus[p].key, t, corpus[q].key, u), []step{{p, t, 0}, {q, u, 0}}, (p+q)%2 == 0, (p+q)%3 != 0, 0)
				}
			}
		}
	}
	// the same program again and again, targets alternating, objects alternating
	for _, p := range progs {
		history("repeat/"+corpus[p].key, []step{{p, "bash", 0}, {p, "batch", 0}, {p, "bash", 0}, {p, "bash", 0}, {p, "batch", 0}, {p, "batch", 0}, {p, "bash", 0}}, false, true, 1)
		history("repeat/objects/"+corpus[p].key, []step{{p, "bash", 0}, {p, "batch", 1}, {p, "bash", 1}, {p, "batch", 0}}, true, true, 2)
	}
	// longer histories
	m := c.n(40, 400)
	for k := 0; k < m; k++ {
		var steps []step
		x := k*2654435761 + 12345
		for j := 0; j < 8; j++ {
			x = (x*1103515245 + 12345) & 0x7fffffff
			steps = append(steps, step{progs[(x>>8)%len(progs)], bothTargets[(x>>4)&1], (x >> 6) & 1})
		}
		history(fmt.Sprintf("history/%d", k), steps, k%2 == 0, k%3 != 0, k%4)
	}
	// changed contents behind the same paths
	libs := []string{"func F() int {\n return 1\n}\n", "n := 4\nfunc F() int {\n n++\n return n\n}\n", "func F() string {\n return \"s\"\n}\n", "func G() int {\n return 1\n}\n", "x := \n"}
	mains := []string{"import l \"l.tsh\"\nprint(l.F())\n", "import l \"l.tsh\"\nx := l.F() + 1\nprint(x)\n", "print(1)\n"}
	type pair struct{ m, l int }
	var pairs []pair
	for m := range mains {
		for l := range libs {
			pairs = append(pairs, pair{m, l})
		}
	}
	proj := func(p pair) *Project { return files("main.tsh", mains[p.m], "l.tsh", libs[p.l]) }
	for _, p := range pairs {
		for _, q := range pairs {
			if p == q {
				continue
			}
			p, q := p, q
			for _, t := range bothTargets {
				t := t
				key := fmt.Sprintf("changed/%d%d/%d%d/%s", p.m, p.l, q.m, q.l, t)
				c.do(key, func() {
					c.obligation(1)
					want := c.alone(proj(q), home, t)
					got := ""
					kind, msg := c.session(func(in *Interp) {
						tr := c.a.newTranspiler(in)
						home.put(in, proj(p))
						c.a.runTranspile(in, tr, "/w/main.tsh", c.a.newConverter(in, t))
						home.put(in, proj(q))
						got = pureOut(in, c.a.runTranspile(in, tr, "/w/main.tsh", c.a.newConverter(in, t)))
					})
					if kind != "script" {
						c.violate(key, t+": "+kind+": "+stripPos(msg), projText(proj(q)))
						return
					}
					if w, d := outcomeDiff(want, got); w != "" {
						c.violate(key, t+": "+w+" after the files have been changed", d+"\n"+projText(proj(q)))
					}
				})
			}
		}
	}
	// no effects: nothing but the imported files is read, nothing is written
	for i, g := range corpus {
		i, g := i, g
		c.do("effects/"+g.key, func() {
			for _, t := range bothTargets {
				if strings.HasPrefix(ref[i][t], "\x00") && ref[i][t] != "\x00error" {
					continue
				}
				c.obligation(1)
				var evs []Event
				c.session(func(in *Interp) {
					home.put(in, g.p)
					c.a.runTranspile(in, c.a.newTranspiler(in), g.p.Main, c.a.newConverter(in, t))
					evs = in.fs().Events
				})
				for _, e := range evs {
					switch e.Op {
					case "read":
						c.count("file reads", 1)
					case "env":
						c.count("reads of the environment (outcome compared in every world)", 1)
					case "write", "create", "rename", "remove", "writefail":
						c.violate("effects/"+g.key, t+": the library changes a file", fmt.Sprintf("%s %s at %s\n", e.Op, e.Path, e.Site))
					}
				}
			}
		})
	}
}

func init() {
	checks["C14"] = &propCheck{level: "other",
		rule: "the compiler's SSA (tokenizer included) is evaluated abstractly in modelled processes which differ in everything a program may not depend on: the order of every map iteration, time, random numbers, environment, addresses, working directory, place of the source tree and of the executable, further files; and in sequences of transpilations on shared transpiler objects with changing targets, failing programs and changing file contents; every outcome must be the one of a fresh process, byte for byte",
		run:  func(c *Ctx) { c.pureCases() }}
}
