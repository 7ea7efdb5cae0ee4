package main

import (
	"fmt"
	"math/rand"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- C12: layout

// transpileText transpiles files given as plain text, the lexer included.
func (a *Anchors) transpileText(files map[string]string, main, target string) *CompResult {
	at := newAtoms()
	var res *CompResult
	explore(a.w, at, 2, func(in *Interp) {
		fs := in.fs()
		for f, t := range files {
			in.maxSteps += 20_000 * len(t)
			fs.Files[f] = t
			for d := f; d != "/" && d != ""; {
				d = d[:strings.LastIndexByte(d, '/')]
				if d == "" {
					d = "/"
				}
				fs.Dirs[d] = true
			}
		}
		fs.Dirs["/w"] = true
	}, func(in *Interp) Value {
		return a.runTranspile(in, a.newTranspiler(in), main, a.newConverter(in, target))
	}, func(r *PathResult) {
		if res == nil {
			res = summarize(r)
		} else {
			res = &CompResult{Kind: "undecided", Err: "more than one path", Funcs: res.Funcs}
		}
	})
	return res
}

// layoutForms visits every statement form and every place where the grammar expects a line break.
func layoutForms() []schema {
	var r []schema
	add := func(k, s string) { r = append(r, schema{k, s}) }
	add("defs", "a := 1\nvar b int\nvar c string = \"x\"\nvar d, e int\nvar f, g = 1, \"s\"\nh, i := 2, true\na = 3\nb, d = d, b\na += 2\na -= 1\na *= 3\na /= 2\na %= 4\na++\nb--\nc += \"y\"\nprint(a, b, c, d, e, f, g, h, i)\n")
	add("exprs", "a := 5\nb := 3\nc := (a + b) * 2 - a / b % 4\nd := a < b || a > b && a <= b\ne := !d && (a >= b || a == b) || a != b\nprint(c - 1, c -1, -1, d, e, a-b, a-1, 2-1, (a)-1)\n")
	add("if", "a := 1\nif a == 1 {\n print(\"1\")\n}\nif a == 2 {\n print(\"2\")\n} else {\n print(\"3\")\n}\nif a == 3 {\n a = 4\n} else if a == 5 {\n a = 6\n} else if a == 7 {\n} else {\n a = 8\n}\nif a > 0 {\n if a > 1 {\n  print(a)\n }\n}\n")
	add("switch", "a := 1\nswitch a {\ncase 1:\n print(\"1\")\ncase 2:\n print(\"2\")\n a = 3\ndefault:\n print(\"d\")\n}\nswitch {\ncase a == 1:\n print(\"x\")\n}\nswitch a {\ndefault:\n}\nswitch {\n}\n")
	add("switch2", "s := \"a\"\nfor {\n switch s {\n case \"a\":\n  s = \"b\"\n case \"b\":\n  if s == \"b\" {\n   break\n  }\n default:\n }\n break\n}\nprint(s)\n")
	add("for", "for i := 0; i < 3; i++ {\n print(i)\n}\ni := 0\nfor i < 2 {\n i++\n}\nfor ; i < 4; i++ {\n}\nfor {\n i--\n if i < 0 {\n  break\n }\n if i == 1 {\n  continue\n }\n}\nfor k, v := range \"abc\" {\n print(k, v)\n}\nfor k := range []int{1, 2} {\n print(k)\n}\n")
	add("func", "func f() {\n}\nfunc g(a int, b string) int {\n if a > 0 {\n  return a\n }\n return 0\n}\nfunc h(a []int) (int, string) {\n return a[0], \"x\"\n}\nf()\nx := g(1, \"s\")\ny, z := h([]int{1, 2})\ny, z = h([]int{x})\nprint(x, y, z, g(g(1, z), \"q\"))\n")
	add("slices", "a := []int{1, 2, 3}\nb := []string{}\nvar c []bool\nb[0] = \"x\"\na[3] = a[0] + a[1]\nc[2] = true\nn := copy(a, []int{4, 5})\nprint(len(a), len(b), a[2], b[0], c[1], n)\ns := \"hello\"\nprint(s[0], s[1:3], s[:2], s[3:], s[:], len(s), len(\"abc\"))\n")
	add("builtins", "a := itoa(5)\nb := exists(\"f\")\nif b {\n c := read(\"f\")\n write(\"g\", c)\n write(\"g\", c, true)\n}\nd := input()\ne := input(\"p\")\nprint(a, d, e)\nprint()\npanic(\"x\")\n")
	add("apps", "@prog(\"a\", \"b\")\n@prog()\n@p1(\"x\") | @p2() | @p3(\"y\")\na, b, c := @prog(\"z\")\na, b, c = @p1() | @p2(\"1\")\nprint(a, b, c)\n")
	add("import", "import m \"m.tsh\"\nx := m.Pub(1)\nprint(x)\n")
	add("imports", "import (\n m \"m.tsh\"\n n \"n.tsh\"\n)\nx := m.Pub(1)\nn.Show(x)\n")
	add("imports1", "import (\n m \"m.tsh\"\n)\nm.Pub(2)\n")
	add("importonly", "import m \"m.tsh\"\n")
	add("empty", "\n")
	add("one", "print(1)\n")
	add("nested", "func f(n int) int {\n for i := 0; i < n; i++ {\n  switch i {\n  case 0:\n   if n > 1 {\n    continue\n   } else {\n    print(\"e\")\n   }\n  default:\n   for k, v := range \"ab\" {\n    print(k, v)\n   }\n  }\n }\n return n\n}\nf(2)\n")
	// programs which have to be rejected in every layout
	add("rej/type", "a := 1\na = \"x\"\n")
	add("rej/undef", "a := 1\nif a == 1 {\n b := 2\n}\nprint(b)\n")
	add("rej/break", "a := 1\nbreak\n")
	add("rej/ret", "func f() int {\n if true {\n  return 1\n }\n}\n")
	add("rej/nobrace", "a := 1\nif a == 1\nprint(a)\n")
	add("rej/two", "a := 1 b := 2\n")
	return r
}

var layoutFiles = map[string]string{
	"/w/m.tsh": "g := 3\nfunc Pub(a int) int {\n return a + g\n}\nfunc priv() {\n}\n",
	"/w/n.tsh": "func Show(a int) {\n print(\"n\", a)\n}\n",
}

// nlVariants gives token-level variants that only differ in line breaks at existing line breaks.
func nlVariants(toks []Tok, every bool) map[string][]Tok {
	r := map[string][]Tok{}
	dup := func(sel func(i int) int) []Tok {
		var out []Tok
		row := 1
		for i, t := range toks {
			t.Row = row
			out = append(out, t)
			if t.Kind == tNewline {
				row++
				for k := sel(i); k > 0; k-- {
					n := t
					n.Row = row
					out = append(out, n)
					row++
				}
			}
		}
		return out
	}
	r["two line breaks for one"] = dup(func(int) int { return 1 })
	r["four line breaks for one"] = dup(func(int) int { return 3 })
	r["twelve line breaks for one"] = dup(func(int) int { return 11 })
	r["more and more line breaks"] = dup(func(i int) int { return i % 9 })
	if every {
		for i, t := range toks {
			if t.Kind == tNewline {
				i := i
				r[fmt.Sprintf("extra line break at token %d (row %d)", i, t.Row)] = dup(func(j int) int {
					if i == j {
						return 1
					}
					return 0
				})
			}
		}
	}
	// leading line breaks
	r["leading line breaks"] = append([]Tok{{Kind: tNewline, V: "\n", Row: 1, Col: 1}, {Kind: tNewline, V: "\n", Row: 2, Col: 1}}, toks...)
	// final newline
	e := toks[len(toks)-1]
	k := len(toks) - 1
	for k > 0 && toks[k-1].Kind == tNewline {
		k--
	}
	r["no final line break"] = append(append([]Tok{}, toks[:k]...), e)
	r["one final line break"] = append(append([]Tok{}, toks[:k]...), Tok{Kind: tNewline, V: "\n", Row: 99, Col: 1}, e)
	return r
}

// relayout renders a text with other gaps between its tokens. The result has the same tokens by the reference
// grammar (up to repeated line breaks); "" when a gap cannot be built.
func relayout(src string, kind string, r *rand.Rand) string {
	toks, err := refLex(src, false)
	if err != nil {
		return ""
	}
	norm := strings.ReplaceAll(src, "\r\n", "\n")
	var b strings.Builder
	for i, t := range toks {
		old := ""
		if i > 0 {
			old = norm[toks[i-1].End:t.Off]
		} else {
			old = norm[:t.Off]
		}
		start := i == 0 || toks[i-1].Kind == tNewline
		end := t.Kind == tNewline || t.Kind == tEOF
		gap := old
		switch kind {
		case "indent tabs":
			if start {
				gap = "\t\t" + old
			}
		case "no indent":
			if start {
				gap = ""
			}
		case "trailing blanks":
			if end {
				gap = " \t  "
			}
		case "trailing line comments":
			if end {
				gap = " // c \" ' ` /* x"
			}
		case "trailing block comments":
			if end {
				gap = "/* a */ /* b */"
			}
		case "leading block comments":
			if start {
				gap = "/* a */" + old
			}
		case "block comments between tokens":
			if !start && !end {
				gap = "/**/"
			}
		case "comments and blanks between tokens":
			if !start && !end {
				gap = " /* x := 1 \"*/\t"
			}
		case "multi-line comments between tokens":
			if !start && !end {
				gap = " /* a\n\n b\n*/ "
			}
		case "blanks everywhere":
			gap = "  " + old + "\t"
		case "tabs for blanks":
			gap = strings.ReplaceAll(old, " ", "\t")
		case "no blanks":
			gap = ""
			if i > 0 && !joinable(toks[i-1], t) {
				gap = " "
			}
		case "comment lines":
			if t.Kind == tNewline {
				gap = old + "\n// line\n  /* block */"
			}
		case "blank lines with blanks":
			if t.Kind == tNewline {
				gap = old + "\n \t \n  "
			}
		case "random":
			opts := []string{old, " ", "\t", "/*c*/", " /* a\n b */ ", "   "}
			if end {
				opts = append(opts, " // x", "//", "/* y */ // z")
			}
			if t.Kind == tNewline {
				opts = append(opts, "\n", "\n\t\n", " // c\n\n", "\r\n \r\n")
			}
			gap = opts[r.Intn(len(opts))]
			if gap == "" && i > 0 && !joinable(toks[i-1], t) {
				gap = " "
			}
		}
		if f := strings.Fields(kind); len(f) == 3 && f[0] == "many" {
			n, _ := strconv.Atoi(f[len(f)-1])
			switch f[1] {
			case "indent":
				if start {
					gap = strings.Repeat(" ", n) + old
				}
			case "tabs":
				if start {
					gap = strings.Repeat("\t", n) + old
				}
			case "blanks":
				if old != "" && !start {
					gap = strings.Repeat(" ", n)
				}
			case "trailing":
				if end {
					gap = strings.Repeat(" ", n)
				}
			case "lines":
				if t.Kind == tNewline {
					gap = old + strings.Repeat("\n", n)
				}
			case "leading":
				if i == 0 {
					gap = strings.Repeat("\n", n) + old
				}
			case "comments":
				if t.Kind == tNewline {
					gap = old + strings.Repeat("\n// c", n)
				}
			case "commentlines":
				if start {
					gap = "/*" + strings.Repeat(" x\n", n) + "*/" + old
				}
			case "longcomment":
				if end {
					gap = " // " + strings.Repeat("c", n)
				} else if start {
					gap = "/*" + strings.Repeat("*", n) + "/" + old
				}
			case "blockcomments":
				if !start && !end {
					gap = strings.Repeat("/**/", n)
				}
			}
		}
		b.WriteString(gap)
		switch {
		case t.Kind == tNewline && (kind == "CRLF" || kind == "random" && r.Intn(3) == 0):
			b.WriteString("\r\n")
		case t.Kind == tNewline:
			b.WriteString("\n")
		default:
			b.WriteString(t.Raw)
		}
	}
	s := b.String()
	if kind == "CRLF" {
		s = strings.ReplaceAll(strings.ReplaceAll(s, "\r\n", "\n"), "\n", "\r\n")
	}
	// only re-layouts that keep the token sequence by the reference grammar are judged
	t2, err := refLex(s, false)
	if err != nil || refNorm(t2) != refNorm(toks) {
		return ""
	}
	return s
}

func refNorm(ts []Tok) string {
	var r lexRes
	for _, t := range ts {
		r.Toks = append(r.Toks, lexTok{Name: refTokName(t), V: t.V})
	}
	return lexNorm(&r)
}

// joinable: the two tokens may touch without changing the token sequence.
func joinable(a, b Tok) bool {
	t, err := refLex(a.Raw+b.Raw, false)
	if err != nil || len(t) != 3 {
		return a.Kind == tNewline || b.Kind == tNewline || b.Kind == tEOF
	}
	return t[0].Raw == a.Raw && t[1].Raw == b.Raw && !(a.Kind == tInt && b.V == ".")
}

var layoutKinds = []string{"CRLF", "indent tabs", "no indent", "trailing blanks", "trailing line comments", "trailing block comments", "leading block comments", "block comments between tokens", "comments and blanks between tokens", "multi-line comments between tokens", "blanks everywhere", "tabs for blanks", "no blanks", "comment lines", "blank lines with blanks"}

func concretise(s string) string {
	var b strings.Builder
	for i := 0; i < len(s); i++ {
		switch s[i] {
		case '#':
			b.WriteByte('7')
			for i+1 < len(s) && (identStart(s[i+1]) || isDigit(s[i+1])) {
				i++
			}
		case '\x01':
			j := strings.IndexByte(s[i+1:], '\x01')
			b.WriteString("sym")
			i += j + 1
		default:
			b.WriteByte(s[i])
		}
	}
	return b.String()
}

// lexNorm is the token sequence without positions and with runs of line breaks collapsed.
func lexNorm(r *lexRes) string {
	var b strings.Builder
	nl := true
	for _, t := range r.Toks {
		if t.Name == "NEWLINE" {
			if !nl {
				b.WriteString("NEWLINE\n")
			}
			nl = true
			continue
		}
		nl = t.Name == "EOF"
		fmt.Fprintf(&b, "%s %q\n", t.Name, t.V)
	}
	return strings.Replace(b.String(), "NEWLINE\nEOF", "EOF", 1)
}

func (c *Ctx) layoutTokens(key, src string, every bool, targets []string) {
	for _, tg := range targets {
		p := oneFile(src)
		for f, t := range layoutFiles {
			p.Files[f] = t
		}
		pr := prepare(p)
		base := c.a.transpileOne(pr, tg)
		c.analysed(base.Funcs)
		toks := pr.Toks[p.Main]
		vs := nlVariants(toks, every)
		for _, k := range sortedKeys(vs) {
			c.obligation(1)
			pr.Toks[p.Main] = vs[k]
			r := c.a.transpileOne(pr, tg)
			if r.Kind != base.Kind {
				c.violate(key+"/"+tg, fmt.Sprintf("%s changes acceptance: %s instead of %s", strings.SplitN(k, " at ", 2)[0], r.Kind, base.Kind), fmt.Sprintf("%s: %s (was %s %s)\nrejected at %s\nprogram:\n%s", k, kindText(r), base.Kind, base.Err, c.w.pos(r.ErrOrg), src))
			} else if r.Kind == "script" && r.Script.flat() != base.Script.flat() {
				c.violate(key+"/"+tg, fmt.Sprintf("%s changes the script", strings.SplitN(k, " at ", 2)[0]), fmt.Sprintf("%s\nprogram:\n%s\n%s", k, src, scriptDiff(pr.Atoms, base.Script.flat(), r.Script.flat())))
			} else if base.Kind != "script" && base.Kind != "error" {
				c.violate(key+"/"+tg, "transpilation: "+kindText(base), src)
			}
		}
		pr.Toks[p.Main] = toks
	}
}

func scriptDiff(at *Atoms, a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(la) || i < len(lb); i++ {
		x, y := "<end>", "<end>"
		if i < len(la) {
			x = la[i]
		}
		if i < len(lb) {
			y = lb[i]
		}
		if x != y {
			return fmt.Sprintf("script line %d: %q\nbecomes:       %q", i+1, at.show(x), at.show(y))
		}
	}
	return ""
}

// layoutLex: the re-laid-out text has the same token sequence.
func (c *Ctx) layoutLex(key, src string, kinds []string, nrand int, text bool) {
	src = concretise(src)
	base := c.a.lexRun(src)
	c.analysed(base.Fn)
	if base.Kind != "tokens" {
		return
	}
	norm := lexNorm(base)
	files := func(s string) map[string]string {
		m := map[string]string{"/w/main.tsh": s}
		for k, v := range layoutFiles {
			m[k] = v
		}
		return m
	}
	var ref map[string]*CompResult
	if text {
		ref = map[string]*CompResult{}
		for _, t := range bothTargets {
			ref[t] = c.a.transpileText(files(src), "/w/main.tsh", t)
			c.analysed(ref[t].Funcs)
		}
	}
	one := func(kind, s string) {
		if s == "" {
			return
		}
		c.obligation(1)
		got := c.a.lexRun(s)
		if got.Kind != "tokens" {
			c.violate(key, fmt.Sprintf("layout %q is not tokenised: %s %s", kind, got.Kind, got.Err), fmt.Sprintf("original:\n%s\nre-laid-out:\n%s", src, s))
			return
		}
		if n := lexNorm(got); n != norm {
			c.violate(key, fmt.Sprintf("layout %q changes the token sequence", kind), fmt.Sprintf("original:\n%s\nre-laid-out:\n%s\n%s", src, s, strings.ReplaceAll(scriptDiff(newAtoms(), norm, n), "script line", "token")))
			return
		}
		if text {
			for _, t := range bothTargets {
				c.obligation(1)
				r := c.a.transpileText(files(s), "/w/main.tsh", t)
				if r.Kind != ref[t].Kind {
					c.violate(key+"/"+t, fmt.Sprintf("layout %q changes acceptance: %s instead of %s", kind, r.Kind, ref[t].Kind), fmt.Sprintf("%s (was: %s)\noriginal:\n%s\nre-laid-out:\n%s", kindText(r), kindText(ref[t]), src, s))
				} else if r.Script.flat() != ref[t].Script.flat() {
					c.violate(key+"/"+t, fmt.Sprintf("layout %q changes the script", kind), fmt.Sprintf("original:\n%s\nre-laid-out:\n%s\n%s", src, s, scriptDiff(newAtoms(), ref[t].Script.flat(), r.Script.flat())))
				}
			}
		}
	}
	for _, k := range kinds {
		one(k, relayout(src, k, nil))
	}
	for i := 0; i < nrand; i++ {
		one("random", relayout(src, "random", rand.New(rand.NewSource(c.seed*7919+int64(i)*31+int64(len(src))))))
	}
}

func init() {
	checks["C12"] = &propCheck{level: "other",
		rule: "two lemmas decided by abstract interpretation: (a) every re-layout of a text (line ends, indentation, blanks, comments, with or without blanks around operators) has the same token sequence up to repeated line breaks (lexer.Tokenize); (b) repeating, leading and final line-break tokens at any existing line break never change acceptance or the emitted template (parser, transpiler, converters); plus the composition on every statement form for both targets",
		run: func(c *Ctx) {
			forms := layoutForms()
			for _, s := range forms {
				s := s
				c.do("form/"+s.key, func() { c.layoutTokens("form/"+s.key, s.src, true, bothTargets) })
				c.do("text/"+s.key, func() { c.layoutLex("text/"+s.key, s.src, layoutKinds, c.n(20, 120), true) })
			}
			c.scaleLayout(forms)
			for i, x := range corpora(c, 0.25) {
				if len(x.p.Files) > 1 {
					continue
				}
				i, x := i, x
				c.do("corpus/"+x.key, func() { c.layoutTokens("corpus/"+x.key, x.p.Files[x.p.Main], false, bothTargets[i%2:i%2+1]) })
			}
			var all []schema
			for p, f := range map[string]func() []schema{"C01": c01Schemas, "C02": c02Schemas, "C03": func() []schema { return c03Schemas(true) }, "C04": c04Schemas} {
				for _, s := range f() {
					all = append(all, schema{p + "/" + s.key, s.src})
				}
			}
			for i, s := range all {
				s := s
				if !c.quick() || (i+int(c.seed))%3 == 0 {
					c.do("nl/"+s.key, func() { c.layoutTokens("nl/"+s.key, s.src, false, bothTargets[i%2:i%2+1]) })
				}
				if !c.quick() || (i+int(c.seed))%8 == 1 {
					c.do("lex/"+s.key, func() { c.layoutLex("lex/"+s.key, s.src, layoutKinds, c.n(2, 6), false) })
				}
			}
		}}
}
