package main

import (
	"fmt"
	"strings"
)

// ---------------------------------------------------------------- C13: totality

// vocabOf lists the concrete tokens of a token type as the tokenizer produces them.
func (a *Anchors) vocab(pr *Prepared) map[int64][]Tok {
	m := map[int64][]Tok{}
	add := func(t Tok) {
		ty, _ := a.tokValue(pr, t)
		m[ty] = append(m[ty], t)
	}
	for _, v := range sortedKeys(repoTokenName) {
		k := tOp
		if isKeyword(v) {
			k = tKeyword
		}
		add(Tok{Kind: k, V: v})
	}
	add(Tok{Kind: tNewline, V: "\n"})
	add(Tok{Kind: tInt, V: "0"})
	add(Tok{Kind: tInt, V: "1"})
	add(Tok{Kind: tInt, V: "-1"})
	add(Tok{Kind: tInt, V: "99999999999999999999"})
	add(Tok{Kind: tString, V: ""})
	add(Tok{Kind: tString, V: "s"})
	add(Tok{Kind: tBool, V: "true"})
	add(Tok{Kind: tBool, V: "false"})
	add(Tok{Kind: tNil, V: "nil"})
	add(Tok{Kind: tIdent, V: "unknownName"})
	seen := map[string]bool{}
	for _, t := range pr.Toks[pr.P.Main] {
		if t.Kind == tIdent && !seen[t.V] && len(seen) < 9 {
			seen[t.V] = true
			add(t)
		}
	}
	return m
}

func withToks(pr *Prepared, toks []Tok) *Prepared {
	q := *pr
	q.Toks = map[string][]Tok{}
	for f, t := range pr.Toks {
		q.Toks[f] = t
	}
	q.Toks[pr.P.Main] = toks
	return &q
}

func showToks(toks []Tok, pr *Prepared) string {
	var b strings.Builder
	for _, t := range toks {
		switch t.Kind {
		case tNewline:
			b.WriteString("\n")
		case tString:
			fmt.Fprintf(&b, "%q ", t.V)
		case tTop:
			b.WriteString("<any token> ")
		case tEOF:
			b.WriteString("<end of file>")
		default:
			b.WriteString(t.V + " ")
		}
	}
	return b.String()
}

// total judges one outcome; what is "" if it is a script without an error or an error without a script.
func totalOutcome(r *CompResult) string {
	switch r.Kind {
	case "script":
		return ""
	case "error":
		if r.Both {
			return "an error together with a script"
		}
		if strings.TrimSpace(r.Err) == "" {
			return "an error without a text"
		}
		return ""
	case "panic":
		return "panic: " + r.Err
	case "exit":
		return "the transpiler ends the process"
	}
	return r.Kind + ": " + r.Err
}

// totalNow: concrete tokens, both targets.
func (c *Ctx) totalToks(key string, pr *Prepared, toks []Tok) bool {
	q := withToks(pr, toks)
	ok := true
	script := false
	for _, t := range bothTargets {
		if t == "batch" && !script {
			break // the front-end does not know the target (C06, C14); an error there is the same for both
		}
		c.obligation(1)
		r := c.a.transpileOne(q, t)
		c.analysed(r.Funcs)
		if w := totalOutcome(r); w != "" {
			c.violate(key, t+": "+stripPos(w), fmt.Sprintf("%s\npath: %s\ntokens:\n%s\n", r.Err, r.Where, showToks(toks, pr)))
			ok = false
		}
		script = script || r.Kind == "script" || r.Kind == "panic"
	}
	return ok
}

// abstractToks: the tokens contain holes for any token.
func (c *Ctx) abstractToks(key string, pr *Prepared, toks []Tok, holes int) {
	q := withToks(pr, toks)
	voc := c.a.vocab(pr)
	for _, target := range bothTargets {
		script := false
		c.obligation(1)
		n := 0
		type alarm struct{ doms []map[int64]bool }
		var alarms []alarm
		_, complete := explore(c.w, q.Atoms, 4000, func(in *Interp) { c.a.install(in, q) }, func(in *Interp) Value {
			t := c.a.newTranspiler(in)
			return c.a.runTranspile(in, t, q.P.Main, c.a.newConverter(in, target))
		}, func(r *PathResult) {
			n++
			s := summarize(r)
			if n%5 == 0 {
				c.analysed(s.Funcs)
			}
			if s.Kind == "script" {
				script = true
			}
			if totalOutcome(s) == "" {
				return
			}
			al := alarm{}
			for k := 0; k < holes; k++ {
				m := map[int64]bool{}
				if d, ok := r.In.extra[fmt.Sprintf("dom%d", k)].(*Dom); ok {
					for v := range d.set {
						m[v] = true
					}
				}
				al.doms = append(al.doms, m)
			}
			alarms = append(alarms, al)
		})
		c.count("paths over token types", n)
		if !complete {
			c.mu.Lock()
			c.bounded++
			c.mu.Unlock()
		}
		// what fails with opaque token texts is decided with the texts that exist
		for _, al := range alarms {
			c.count("abstract alarms decided with concrete tokens", 1)
			script = true
			var rec func(i int, out []Tok)
			rec = func(i int, out []Tok) {
				if i == len(toks) {
					c.totalToks(key, pr, out)
					return
				}
				if toks[i].Kind != tTop {
					rec(i+1, append(out, toks[i]))
					return
				}
				var k int
				fmt.Sscan(toks[i].V, &k)
				for ty := range al.doms[k] {
					for _, t := range voc[ty] {
						t.Row, t.Col = 900, k
						rec(i+1, append(out[:len(out):len(out)], t))
					}
				}
			}
			rec(0, nil)
		}
		if !script {
			break
		}
	}
}

func spliceToks(toks []Tok, i, drop int, mid ...Tok) []Tok {
	r := append([]Tok{}, toks[:i]...)
	r = append(r, mid...)
	return append(r, toks[i+drop:]...)
}

func top(k int) Tok { return Tok{Kind: tTop, V: fmt.Sprint(k)} }

// totalCorpus: programs whose neighbourhood is explored.
func totalCorpus() []schema {
	r := layoutForms()
	add := func(k, s string) { r = append(r, schema{k, s}) }
	add("t/strings", "s := \"abc\"\nt := s[1:] + s[:2] + s[0]\nif s == t || !(s != \"x\") {\n s += t\n}\nfor i, c := range s {\n print(i, c, s[i], s[i:i + 1])\n}\nprint(len(s) + len(\"a\"))\n")
	add("t/calls", "func f(a int, b []string, c bool) (int, string, error) {\n if c {\n  return a, b[0], nil\n }\n return 0, \"\", \"bad\"\n}\nfunc g() {\n return\n}\nfunc h(x int, y string, z error) int {\n return x\n}\nx, y, z := f(1, []string{\"a\"}, true)\ng()\nprint(x, y, z, h(f(2, []string{}, false)))\nx, _, z = f(h(x, y, z), []string{}, z == nil)\n")
	add("t/slices", "a := [][]int{}\nb := []string{\"x\", \"y\",}\nc := []bool{true, false}\nb[len(b)] = itoa(len(c))\nfor i, v := range b {\n c[i] = v == \"x\"\n}\ncopy(b, []string{\"q\"})\nvar d []error\nd[1] = nil\n")
	add("t/switch", "x := 2\nswitch x {\ncase 1, 2:\n print(x)\ncase 3:\ndefault:\n switch {\n case x > 1 && x < 5:\n  print(\"s\")\n }\n}\n")
	add("t/nestedapp", "a, b, c := @K_cat(\"x\") | @`grep -v`(\"y\", itoa(1))\nif c == 0 {\n @K_ls(a, b)\n}\n")
	add("t/std", "import (\n \"strings\"\n)\nprint(strings.Contains(\"a\", \"b\"))\n")
	return r
}

func (c *Ctx) totality() {
	full := !c.quick()
	std := func(p *Project) *Project {
		for f, s := range layoutFiles {
			p.Files[f] = s
		}
		p.Files["/opt/tsh/std/strings.tsh"] = "func Contains(s string, t string) bool {\n return s == t\n}\n"
		return p
	}
	for fi, s := range totalCorpus() {
		pr := prepare(std(oneFile(s.src)))
		if pr.LexErr[pr.P.Main] != nil {
			continue
		}
		toks := pr.Toks[pr.P.Main]
		eof := toks[len(toks)-1]
		fi := fi
		for i := range toks {
			i := i
			key := fmt.Sprintf("near/%s/%d", s.key, i)
			src := s.src
			c.do(key, func() {
				pr := prepare(std(oneFile(src)))
				// cut off
				c.totalToks(key+"/cut", pr, append(append([]Tok{}, toks[:i]...), eof))
				h := i + fi
				if i < len(toks)-1 && (full || h%2 == 0) {
					c.totalToks(key+"/without", pr, spliceToks(toks, i, 1))
					c.totalToks(key+"/twice", pr, spliceToks(toks, i, 0, toks[i]))
				}
				if i < len(toks)-2 && (full || h%2 == 1) {
					c.totalToks(key+"/swapped", pr, spliceToks(toks, i, 2, toks[i+1], toks[i]))
				}
				// any token here
				if full || h%2 == 1 || i > len(toks)-3 {
					c.abstractToks(key+"/inserted", pr, spliceToks(toks, i, 0, top(0)), 1)
				}
				if i < len(toks)-1 && (full || h%2 == 0) {
					c.abstractToks(key+"/replaced", pr, spliceToks(toks, i, 1, top(0)), 1)
				}
				if full || h%3 == 0 {
					c.abstractToks(key+"/end", pr, append(append([]Tok{}, toks[:i]...), top(0), top(1), eof), 2)
				}
				if h%8 == 1 || full && h%5 == 0 {
					if i < len(toks)-2 {
						c.abstractToks(key+"/replaced2", pr, spliceToks(toks, i, 2, top(0), top(1)), 2)
					}
				}
				if full && h%13 == 0 {
					c.abstractToks(key+"/inserted2", pr, spliceToks(toks, i, 0, top(0), top(1)), 2)
				}
				if full && h%61 == 2 {
					c.abstractToks(key+"/end3", pr, append(append([]Tok{}, toks[:i]...), top(0), top(1), top(2), eof), 3)
				}
				// other names and literals
				voc := c.a.vocab(pr)
				for _, k := range []string{"IDENTIFIER", "NUMBER_LITERAL", "STRING_LITERAL", "BOOL_LITERAL", "NIL_LITERAL", "DATA_TYPE"} {
					for vi, t := range voc[c.a.consts[k]] {
						if !full && (vi+i+fi)%9 != 0 {
							continue
						}
						t.Row, t.Col = toks[i].Row, toks[i].Col
						if i < len(toks)-1 && (toks[i].Kind == tIdent || toks[i].Kind == tInt || toks[i].Kind == tString || toks[i].Kind == tBool || toks[i].Kind == tNil || toks[i].Kind == tKeyword) {
							c.totalToks(fmt.Sprintf("%s/name/%s%d", key, k, vi), pr, spliceToks(toks, i, 1, t))
						}
					}
				}
			})
		}
	}
	// any tokens from the start
	eof := Tok{Kind: tEOF}
	n := 3
	for _, pre := range []string{"", "a := 1\n", "import m \"m.tsh\"\n", "func f() {\n", "func f() int {\n", "for {\n", "if true {\n", "switch 1 {\n", "switch {\ncase true:\n", "import (\n", "if true {\n}", "func f(", "for i := 0;", "x := []int{", "print(", "a := []int{1}\na[", "@"} {
		p := prepare(std(oneFile(pre)))
		base := p.Toks[p.P.Main]
		base = base[:len(base)-1]
		if !strings.HasSuffix(pre, "\n") {
			for len(base) > 0 && base[len(base)-1].Kind == tNewline {
				base = base[:len(base)-1]
			}
		}
		for k := 0; k <= n; k++ {
			if k == n && c.quick() && pre != "" {
				continue
			}
			ts := append([]Tok{}, base...)
			for h := 0; h < k; h++ {
				ts = append(ts, top(h))
			}
			ts = append(ts, eof)
			key, k := fmt.Sprintf("any/%s/%d", oneLine(pre), k), k
			pre := pre
			c.do(key, func() { c.abstractToks(key, prepare(std(oneFile(pre))), ts, k) })
		}
	}
	// texts, the tokenizer included
	text := func(key string, files map[string]string, main string) {
		c.do(key, func() {
			for _, t := range bothTargets {
				c.obligation(1)
				r := c.a.transpileText(files, main, t)
				c.analysed(r.Funcs)
				if w := totalOutcome(r); w != "" {
					c.violate(key, t+": "+stripPos(w), fmt.Sprintf("path: %s\ntext: %q\n", r.Where, files[main]))
					return
				}
				if r.Kind == "error" && t == "bash" {
					break
				}
			}
		})
	}
	alpha := []string{"a", "_", "0", "7", "\"", "`", "\\", "/", "*", "\n", "\r", "\t", " ", "+", "-", "=", ":", "<", "!", "&", "|", "(", ")", "{", "}", "[", "]", ",", ";", ".", "@", "#", "'", "$", "\x00", "\x7f", "\x80", "\xff", "\xc3", "é", "€", "😀", "\ufeff", "%", "?", "^", "~"}
	for _, x := range alpha {
		text("text/"+fmt.Sprintf("%q", x), map[string]string{"/w/main.tsh": x}, "/w/main.tsh")
		for _, y := range alpha {
			text("text/"+fmt.Sprintf("%q", x+y), map[string]string{"/w/main.tsh": x + y}, "/w/main.tsh")
			for zi, z := range alpha {
				if c.quick() && (zi+len(x)*3+int(y[0]))%7 != 0 {
					continue
				}
				text("text/"+fmt.Sprintf("%q", x+y+z), map[string]string{"/w/main.tsh": x + y + z}, "/w/main.tsh")
			}
		}
	}
	for fi, s := range totalCorpus() {
		fs := func(t string) map[string]string {
			m := map[string]string{"/w/main.tsh": t}
			for f, s := range layoutFiles {
				m[f] = s
			}
			return m
		}
		for i := 0; i <= len(s.src); i++ {
			for ai, x := range append([]string{""}, alpha...) {
				if (ai*7+i*3+fi)%c.n(37, 8) != 0 {
					continue
				}
				text(fmt.Sprintf("mut/%s/%d/ins/%q", s.key, i, x), fs(s.src[:i]+x+s.src[i:]), "/w/main.tsh")
				if i < len(s.src) {
					text(fmt.Sprintf("mut/%s/%d/rep/%q", s.key, i, x), fs(s.src[:i]+x+s.src[i+1:]), "/w/main.tsh")
				}
			}
			text(fmt.Sprintf("mut/%s/%d/cut", s.key, i), fs(s.src[:i]), "/w/main.tsh")
		}
	}
	// files
	for _, s := range []struct {
		key, main string
		files     map[string]string
	}{
		{"missing", "/w/nope.tsh", map[string]string{}},
		{"missingdir", "/nope/x.tsh", map[string]string{}},
		{"dir", "/w", map[string]string{}},
		{"root", "/", map[string]string{}},
		{"empty", "", map[string]string{}},
		{"relative", "main.tsh", map[string]string{"/w/main.tsh": "print(1)\n"}},
		{"relative2", "./x/../main.tsh", map[string]string{"/w/main.tsh": "print(1)\n"}},
		{"emptyfile", "/w/main.tsh", map[string]string{"/w/main.tsh": ""}},
		{"importdir", "/w/main.tsh", map[string]string{"/w/main.tsh": "import l \"sub\"\n", "/w/sub/x.tsh": ""}},
		{"importself", "/w/main.tsh", map[string]string{"/w/main.tsh": "import l \"main.tsh\"\n"}},
		{"importself2", "/w/main.tsh", map[string]string{"/w/main.tsh": "import l \"./main.tsh\"\nprint(1)\n"}},
		{"cycle2", "/w/main.tsh", map[string]string{"/w/main.tsh": "import l \"l.tsh\"\n", "/w/l.tsh": "import m \"main.tsh\"\n"}},
		{"cycle3", "/w/main.tsh", map[string]string{"/w/main.tsh": "import l \"l.tsh\"\n", "/w/l.tsh": "import m \"m.tsh\"\n", "/w/m.tsh": "import l \"l.tsh\"\n"}},
		{"cycledir", "/w/main.tsh", map[string]string{"/w/main.tsh": "import l \"s/l.tsh\"\n", "/w/s/l.tsh": "import m \"../s/l.tsh\"\n"}},
		{"cyclestd", "/w/main.tsh", map[string]string{"/w/main.tsh": "import \"a\"\n", "/opt/tsh/std/a.tsh": "import \"b\"\n", "/opt/tsh/std/b.tsh": "import \"a\"\n"}},
		{"cyclestd1", "/w/main.tsh", map[string]string{"/w/main.tsh": "import \"a\"\n", "/opt/tsh/std/a.tsh": "import \"a\"\n"}},
		{"cyclepath", "/w/main.tsh", map[string]string{"/w/main.tsh": "import l \"/w/./l.tsh\"\n", "/w/l.tsh": "import l \"/w//l.tsh\"\n"}},
		{"missingimport", "/w/main.tsh", map[string]string{"/w/main.tsh": "import l \"nope.tsh\"\n"}},
		{"missingstd", "/w/main.tsh", map[string]string{"/w/main.tsh": "import \"nope\"\n"}},
		{"emptyimport", "/w/main.tsh", map[string]string{"/w/main.tsh": "import l \"l.tsh\"\n", "/w/l.tsh": ""}},
		{"emptypath", "/w/main.tsh", map[string]string{"/w/main.tsh": "import l \"\"\n"}},
		{"emptypath2", "/w/main.tsh", map[string]string{"/w/main.tsh": "import \"\"\n"}},
		{"dots", "/w/main.tsh", map[string]string{"/w/main.tsh": "import l \"..\"\n"}},
		{"dots2", "/w/main.tsh", map[string]string{"/w/main.tsh": "import \".\"\n"}},
		{"nul", "/w/main.tsh", map[string]string{"/w/main.tsh": "import l \"a\\x00b\"\n"}},
		{"badimport", "/w/main.tsh", map[string]string{"/w/main.tsh": "import l \"l.tsh\"\n", "/w/l.tsh": "\x00\xff\"'"}},
		{"noext", "/w/main", map[string]string{"/w/main": "print(1)\n"}},
	} {
		text("files/"+s.key, s.files, s.main)
	}
	// the programs of other checks, accepted or not
	for _, x := range corpora(c, 1) {
		p := x
		c.do(p.key, func() {
			pr := prepare(p.p)
			c.obligation(2)
			for _, t := range bothTargets {
				r := c.a.transpileOne(pr, t)
				c.analysed(r.Funcs)
				if w := totalOutcome(r); w != "" {
					c.violate(p.key, t+": "+stripPos(w), fmt.Sprintf("%s\npath: %s\n%s\n", r.Err, r.Where, p))
				}
			}
		})
	}
	// the effort has to stay within a polynomial of the size
	for _, g := range growthFamilies {
		g := g
		c.do("growth/"+g.key, func() {
			for _, t := range bothTargets {
				c.obligation(1)
				n1, n2 := 9, 18
				cost := func(n int) (int, string) {
					p := g.mk(n)
					at := newAtoms()
					var res *CompResult
					pr := prepare(p)
					explore(c.w, at, 2, func(in *Interp) { in.maxSteps, in.maxDepth = 60_000_000, 5000; c.a.install(in, pr) }, func(in *Interp) Value {
						return c.a.runTranspile(in, c.a.newTranspiler(in), p.Main, c.a.newConverter(in, t))
					}, func(r *PathResult) {
						if res == nil {
							res = summarize(r)
						}
					})
					c.analysed(res.Funcs)
					return res.Steps, totalOutcome(res)
				}
				s0, w0 := cost(1)
				s1, w1 := cost(n1)
				s2, w2 := cost(n2)
				if w := w0 + w1 + w2; w != "" {
					c.violate("growth/"+g.key, t+": "+stripPos(w), g.mk(n2).Files["/w/main.tsh"])
					return
				}
				// quartic growth would be a factor of 16
				if s2-s0 > 24*(s1-s0+2000) {
					c.violate("growth/"+g.key, t+": the effort explodes with the size of the program", fmt.Sprintf("%d steps for size 1, %d for size %d, %d for size %d\n%s", s0, s1, n1, s2, n2, g.mk(n1).Files["/w/main.tsh"]))
					return
				}
				c.count("growth families", 1)
			}
		})
	}
}

var growthFamilies = []struct {
	key string
	mk  func(n int) *Project
}{
	{"parens", func(n int) *Project {
		return oneFile("x := " + strings.Repeat("(", n) + "1" + strings.Repeat(")", n) + "\n")
	}},
	{"not", func(n int) *Project {
		return oneFile("x := " + strings.Repeat("!(", n) + "true" + strings.Repeat(")", n) + "\n")
	}},
	{"sum", func(n int) *Project { return oneFile("x := 1" + strings.Repeat(" + 1", n) + "\n") }},
	{"mixed", func(n int) *Project {
		return oneFile("x := true" + strings.Repeat(" && 1 + 2 * 3 < 4 || false", n) + "\n")
	}},
	{"compare", func(n int) *Project { return oneFile("x := true" + strings.Repeat(" == true", n) + "\n") }},
	{"calls", func(n int) *Project {
		return oneFile("func f(p int) int {\n return p\n}\nx := " + strings.Repeat("f(", n) + "1" + strings.Repeat(")", n) + "\n")
	}},
	{"index", func(n int) *Project {
		return oneFile("s := []int{0}\nx := " + strings.Repeat("s[", n) + "0" + strings.Repeat("]", n) + "\n")
	}},
	{"itoa", func(n int) *Project {
		return oneFile("x := " + strings.Repeat("len(itoa(", n) + "1" + strings.Repeat("))", n) + "\n")
	}},
	{"substr", func(n int) *Project {
		return oneFile("s := \"abc\"\nx := " + strings.Repeat("s[len(", n) + "s" + strings.Repeat(") - 1:]", n) + "\n")
	}},
	{"ifs", func(n int) *Project {
		return oneFile("x := 1\n" + strings.Repeat("if x == 1 {\n", n) + "print(x)\n" + strings.Repeat("}\n", n))
	}},
	{"elseif", func(n int) *Project {
		return oneFile("x := 1\nif x == 1 {\n}" + strings.Repeat(" else if x == 2 {\n print(1)\n}", n) + "\n")
	}},
	{"elses", func(n int) *Project {
		return oneFile("x := 1\n" + strings.Repeat("if x == 1 {\nprint(1)\n} else {\n", n) + "print(x)\n" + strings.Repeat("}\n", n))
	}},
	{"fors", func(n int) *Project {
		return oneFile(strings.Repeat("for {\n", n) + "break\n" + strings.Repeat("}\n", n))
	}},
	{"ranges", func(n int) *Project {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "for i%d, v%d := range \"ab\" {\n", i, i)
		}
		return oneFile(b.String() + strings.Repeat("}\n", n))
	}},
	{"switches", func(n int) *Project {
		return oneFile(strings.Repeat("switch 1 {\ncase 1:\n", n) + "print(1)\n" + strings.Repeat("}\n", n))
	}},
	{"cases", func(n int) *Project {
		return oneFile("switch 1 {\n" + strings.Repeat("case 1:\n print(1)\n", n) + "}\n")
	}},
	{"funcs", func(n int) *Project {
		var b strings.Builder
		b.WriteString("func f0() int {\n return 1\n}\nfunc f1() int {\n return f0()\n}\n")
		for i := 2; i < n+2; i++ {
			fmt.Fprintf(&b, "func f%d() int {\n return f%d() + f%d()\n}\n", i, i-1, i-2)
		}
		fmt.Fprintf(&b, "print(f%d())\n", n+1)
		return oneFile(b.String())
	}},
	{"allfuncs", func(n int) *Project {
		var b strings.Builder
		b.WriteString("func f0() int {\n return 1\n}\n")
		for i := 1; i < n; i++ {
			fmt.Fprintf(&b, "func f%d() int {\n x := 0\n", i)
			for j := 0; j < i; j++ {
				fmt.Fprintf(&b, " x += f%d()\n", j)
			}
			b.WriteString(" return x\n}\n")
		}
		fmt.Fprintf(&b, "print(f%d())\n", n-1)
		return oneFile(b.String())
	}},
	{"statements", func(n int) *Project { return oneFile("x := 1\n" + strings.Repeat("x += 2\nprint(x)\n", n)) }},
	{"vars", func(n int) *Project {
		var l, r []string
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("v%d", i))
			r = append(r, fmt.Sprint(i))
		}
		return oneFile(strings.Join(l, ", ") + " := " + strings.Join(r, ", ") + "\n" + strings.Join(l, ", ") + " = " + strings.Join(r, ", ") + "\n")
	}},
	{"params", func(n int) *Project {
		var l, r []string
		for i := 0; i < n; i++ {
			l = append(l, fmt.Sprintf("v%d int", i))
			r = append(r, fmt.Sprint(i))
		}
		return oneFile("func f(" + strings.Join(l, ", ") + ") {\n}\nf(" + strings.Join(r, ", ") + ")\n")
	}},
	{"returns", func(n int) *Project {
		return oneFile("func f() (int" + strings.Repeat(", int", n) + ") {\n return 1" + strings.Repeat(", 1", n) + "\n}\nf()\n")
	}},
	{"elements", func(n int) *Project { return oneFile("x := []int{1" + strings.Repeat(", 2", n) + "}\n") }},
	{"prints", func(n int) *Project { return oneFile("print(1" + strings.Repeat(", 2", n) + ")\n") }},
	{"pipes", func(n int) *Project { return oneFile("@K_p()" + strings.Repeat(" | @K_q(\"a\")", n) + "\n") }},
	{"args", func(n int) *Project { return oneFile("@K_p(\"a\"" + strings.Repeat(", \"b\"", n) + ")\n") }},
	{"diamonds", func(n int) *Project {
		p := files("main.tsh", "import m \"m0.tsh\"\nprint(m.F())\n")
		for i := 0; i < n; i++ {
			p.Files[fmt.Sprintf("/w/m%d.tsh", i)] = fmt.Sprintf("import (\n a \"a%d.tsh\"\n b \"b%d.tsh\"\n)\nfunc F() int {\n return a.F() + b.F() + %d\n}\n", i, i, i)
			for _, x := range "ab" {
				p.Files[fmt.Sprintf("/w/%c%d.tsh", x, i)] = fmt.Sprintf("import m \"m%d.tsh\"\nfunc F() int {\n return m.F() * %d\n}\n", i+1, x)
			}
		}
		p.Files[fmt.Sprintf("/w/m%d.tsh", n)] = "func F() int {\n return 1\n}\n"
		return p
	}},
	{"imports", func(n int) *Project {
		p := files("main.tsh", "")
		s := "import (\n"
		for i := 0; i < n; i++ {
			s += fmt.Sprintf(" m%d \"m%d.tsh\"\n", i, i)
			p.Files[fmt.Sprintf("/w/m%d.tsh", i)] = fmt.Sprintf("func F() int {\n return %d\n}\n", i)
		}
		p.Files["/w/main.tsh"] = s + ")\nprint(m0.F())\n"
		return p
	}},
	{"unclosed", func(n int) *Project { return oneFile("x := " + strings.Repeat("(", n)) }},
	{"unclosedcalls", func(n int) *Project {
		return oneFile("func f(p int) int {\n return p\n}\nx := " + strings.Repeat("f(1, ", n))
	}},
	{"commas", func(n int) *Project { return oneFile("x" + strings.Repeat(", x", n)) }},
}

func init() {
	checks["C13"] = &propCheck{level: "other",
		rule: "the compiler's SSA is analysed abstractly on token lists in which up to two (thorough: three) tokens are unknown (every token type is split lazily, alarms are decided with every concrete token of the type) at every position of a corpus that visits every statement form, on every cut, omission, repetition and exchange of a token there, on texts over a byte alphabet and single-byte edits of the corpus with the tokenizer included, on missing, empty, cyclic and unreadable files; every path has to end with a script or with a non-empty error, and the number of executed instructions may only grow polynomially along families of programs",
		run:  func(c *Ctx) { c.totality() }}
}
