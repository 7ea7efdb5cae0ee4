package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- C15: std/strings

// stdCall is one call of the library with the result of Go's function of the same name.
type stdCall struct {
	fn   string
	args []any // string, int or []string
	want []any // string, int, bool or []string
	sym  bool  // the letters of the arguments stand for pairwise different opaque characters
}

// stdCode is an argument which is given by its code.
type stdCode string

func (k stdCall) lit(s string) string {
	if k.sym {
		var b strings.Builder
		for i := 0; i < len(s); i++ {
			b.WriteString("\x01c:" + s[i:i+1] + "\x01")
		}
		return "\"" + b.String() + "\""
	}
	return tshLit(s)
}

// abs gives the expected text over opaque characters.
func (k stdCall) abs(a *Atoms, s string) string {
	if !k.sym {
		return s
	}
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' {
			b.WriteRune(a.mk("char", "c:"+string(c)))
		} else {
			b.WriteRune(c)
		}
	}
	return b.String()
}

func tshLit(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for i := 0; i < len(s); i++ {
		switch c := s[i]; c {
		case '"', '\\':
			b.WriteByte('\\')
			b.WriteByte(c)
		case '\n':
			b.WriteString(`\n`)
		case '\t':
			b.WriteString(`\t`)
		case '\r':
			b.WriteString(`\r`)
		case '\v':
			b.WriteString(`\v`)
		case '\f':
			b.WriteString(`\f`)
		default:
			b.WriteByte(c)
		}
	}
	b.WriteByte('"')
	return b.String()
}

func stdShow(v any) string {
	switch x := v.(type) {
	case string:
		return "[" + x + "]"
	case bool:
		if x {
			return "[1]"
		}
		return "[0]"
	case int:
		return fmt.Sprintf("[%d]", x)
	case []string:
		r := fmt.Sprintf("(%d", len(x))
		for _, e := range x {
			r += "[" + e + "]"
		}
		return r + ")"
	}
	panic("unknown value")
}

func (k stdCall) show() string {
	var a []string
	for _, x := range k.args {
		a = append(a, fmt.Sprintf("%#v", x))
	}
	if k.sym {
		return k.fn + "(" + strings.Join(a, ", ") + ") over opaque characters"
	}
	return k.fn + "(" + strings.Join(a, ", ") + ")"
}

// stdCode prints the result of one call between brackets.
func (k stdCall) code(form int) string {
	var pre strings.Builder
	var args []string
	for i, a := range k.args {
		t := ""
		switch x := a.(type) {
		case string:
			t = k.lit(x)
		case int:
			t = fmt.Sprint(x)
		case []string:
			var es []string
			for _, e := range x {
				es = append(es, k.lit(e))
			}
			t = "[]string{" + strings.Join(es, ", ") + "}"
		case stdCode:
			t = string(x)
		}
		if form == 1 {
			switch a.(type) {
			case string:
				fmt.Fprintf(&pre, "s%d = %s\n", i, t)
				t = fmt.Sprintf("s%d", i)
			case int:
				fmt.Fprintf(&pre, "n%d = %s\n", i, t)
				t = fmt.Sprintf("n%d", i)
			}
		}
		args = append(args, t)
	}
	call := "K_strings." + k.fn + "(" + strings.Join(args, ", ") + ")"
	one := func(v any, e string) string {
		switch v.(type) {
		case string:
			return fmt.Sprintf("print(\"[\" + %s + \"]\")\n", e)
		case int:
			return fmt.Sprintf("print(\"[\" + itoa(%s) + \"]\")\n", e)
		case bool:
			return fmt.Sprintf("if %s {\n print(\"[1]\")\n} else {\n print(\"[0]\")\n}\n", e)
		case []string:
			return fmt.Sprintf("l = %s\nr = \"(\" + itoa(len(l))\nfor i, v := range l {\n r += \"[\" + v + \"]\"\n}\nprint(r + \")\")\n", e)
		}
		panic("unknown value")
	}
	if len(k.want) == 1 {
		return pre.String() + one(k.want[0], call)
	}
	vars := map[string]string{}
	var names []string
	for i, w := range k.want {
		n := fmt.Sprintf("x%d", i)
		if _, ok := w.(bool); ok {
			n = "ok"
		}
		names = append(names, n)
		vars[n] = ""
	}
	s := pre.String() + strings.Join(names, ", ") + " = " + call + "\n"
	for i, w := range k.want {
		s += one(w, names[i])
	}
	return s
}

const stdHead = "import (\n \"strings\"\n)\nvar s0, s1, s2, x0, x1, r string\nvar n1, n3 int\nvar ok bool\nvar l []string\n"

func (c *Ctx) stdBatch(key string, calls []stdCall, form int, lib string) {
	c.do(key, func() {
		c.stdRun(key, calls, form, lib, true)
	})
}

// stdRun decides a group of calls with one script and splits the group where it fails.
func (c *Ctx) stdRun(key string, calls []stdCall, form int, lib string, first bool) bool {
	if first {
		c.obligation(len(calls))
		c.count("calls of "+calls[0].fn, len(calls))
	}
	var src, want strings.Builder
	src.WriteString(stdHead)
	if form == 2 {
		src.WriteString("func run(z string) string {\n")
	}
	for _, k := range calls {
		src.WriteString(k.code(form))
	}
	if form == 2 {
		src.WriteString("return z + \"!\"\n}\nfor again := 0; again < 2; again++ {\nprint(run(\"z\"))\n}\n")
	}
	p := oneFile(src.String())
	p.Files["/opt/tsh/std/strings.tsh"] = lib
	pr := prepare(p)
	r := c.a.transpileOne(pr, "bash")
	if first {
		c.analysed(r.Funcs)
	}
	for _, k := range calls {
		for _, w := range k.want {
			want.WriteString(k.abs(pr.Atoms, stdShow(w)) + "\n")
		}
	}
	if form == 2 {
		want.WriteString("z!\n")
		t := want.String()
		want.WriteString(t)
	}
	what, detail := "", ""
	if r.Kind != "script" {
		what, detail = "the program is not translated: "+kindText(r), src.String()
	} else {
		sy := newSym(pr.Atoms, newOracle(nil, 0), 64)
		obs, err := bashRun(r.Script.flat(), sy, &WorldModel{Steps: 3_000_000})
		switch {
		case err != nil:
			what = "the emitted script leaves the modelled part of the shell: " + err.Error()
		case obs.Exit != "0":
			what = "the script fails"
		case obs.Err.Len() > 0:
			what = "the script reports an error"
			detail = pr.Atoms.show(obs.Err.String())
		case obs.Out.String() != want.String():
			what = "the result differs from Go's"
			detail = fmt.Sprintf("got:  %q\nwant: %q\n", pr.Atoms.show(obs.Out.String()), pr.Atoms.show(want.String()))
		}
	}
	if what == "" {
		c.mu.Lock()
		c.paths += len(calls)
		c.mu.Unlock()
		return true
	}
	if len(calls) > 1 && c.total() < 40 {
		n := len(calls) / 2
		a := c.stdRun(key, calls[:n], form, lib, false)
		b := c.stdRun(key, calls[n:], form, lib, false)
		if !a || !b {
			return false
		}
		// only the sequence of the calls fails
	}
	name := calls[0].show()
	if len(calls) > 1 {
		name += fmt.Sprintf(" and %d further calls", len(calls)-1)
	}
	c.violate(name, calls[0].fn+": "+stripPos(what), detail+"\nprogram:\n"+src.String())
	return false
}

// partitions gives one text of length n per partition of its positions into equal characters.
func partitions(n int) []string {
	r := []string{""}
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range r {
			m := byte('a' - 1)
			for k := 0; k < len(s); k++ {
				m = max(m, s[k])
			}
			for ch := byte('a'); ch <= m+1; ch++ {
				next = append(next, s+string(ch))
			}
		}
		r = next
	}
	return r
}

func allStrings(alpha string, n int) []string {
	r := []string{""}
	last := r
	for i := 0; i < n; i++ {
		var next []string
		for _, s := range last {
			for _, c := range alpha {
				next = append(next, s+string(c))
			}
		}
		r = append(r, next...)
		last = next
	}
	return r
}

func (c *Ctx) stdCases() {
	b, err := os.ReadFile(filepath.Join(c.w.Root, "std", "strings.tsh"))
	if err != nil {
		c.violate("library", "the library cannot be read", err.Error())
		return
	}
	lib := string(b)
	groups := map[string][]stdCall{}
	sym := false
	add := func(fn string, want []any, args ...any) {
		groups[fn] = append(groups[fn], stdCall{fn, args, want, sym})
	}
	w := func(v ...any) []any { return v }
	two := func(s, t string) {
		add("Index", w(strings.Index(s, t)), s, t)
		add("Contains", w(strings.Contains(s, t)), s, t)
		add("HasPrefix", w(strings.HasPrefix(s, t)), s, t)
		add("HasSuffix", w(strings.HasSuffix(s, t)), s, t)
		add("Count", w(strings.Count(s, t)), s, t)
		add("Split", w(strings.Split(s, t)), s, t)
		x, y, ok := strings.Cut(s, t)
		add("Cut", w(x, y, ok), s, t)
		x, ok = strings.CutPrefix(s, t)
		add("CutPrefix", w(x, ok), s, t)
		x, ok = strings.CutSuffix(s, t)
		add("CutSuffix", w(x, ok), s, t)
		add("TrimPrefix", w(strings.TrimPrefix(s, t)), s, t)
		add("TrimSuffix", w(strings.TrimSuffix(s, t)), s, t)
		add("TrimLeft", w(strings.TrimLeft(s, t)), s, t)
		add("TrimRight", w(strings.TrimRight(s, t)), s, t)
		add("Trim", w(strings.Trim(s, t)), s, t)
	}
	three := func(s, o, n string) {
		add("ReplaceAll", w(strings.ReplaceAll(s, o, n)), s, o, n)
		for k := -2; k <= 4; k++ {
			add("Replace", w(strings.Replace(s, o, n, k)), s, o, n, k)
		}
	}
	single := func(s string) {
		add("TrimSpace", w(strings.TrimSpace(s)), s)
		for k := 0; k <= 4; k++ {
			add("Repeat", w(strings.Repeat(s, k)), s, k)
		}
	}
	// Opaque characters: every tuple of texts over characters of which only equality is known, once
	// per partition of the positions into equal characters.
	sym = true
	for n := 0; n <= c.n(5, 6); n++ {
		for m := 0; m <= 3; m++ {
			if n+m > c.n(6, 8) {
				continue
			}
			for _, p := range partitions(n + m) {
				two(p[:n], p[n:])
			}
		}
	}
	for n := 0; n <= c.n(3, 4); n++ {
		for m := 0; m <= 2; m++ {
			for l := 0; l <= c.n(1, 2); l++ {
				for _, p := range partitions(n + m + l) {
					three(p[:n], p[n:n+m], p[n+m:])
				}
			}
		}
	}
	for n := 0; n <= c.n(4, 5); n++ {
		for _, p := range partitions(n) {
			single(p)
			for m := 0; m <= n; m++ {
				for l := m; l <= n; l++ {
					for sep := l; sep <= n; sep++ {
						add("Join", w(strings.Join([]string{p[:m], p[m:l], p[l:sep]}, p[sep:])), []string{p[:m], p[m:l], p[l:sep]}, p[sep:])
					}
				}
			}
		}
	}
	sym = false
	ab := allStrings("ab", c.n(3, 5))
	short := allStrings("ab", 2)
	for _, s := range ab {
		for _, t := range short {
			two(s, t)
		}
	}
	blanks := allStrings("a ", 3)
	for _, s := range blanks {
		for _, t := range allStrings("a ", 2) {
			two(s, t)
		}
	}
	for _, s := range allStrings(" a", 2) {
		for _, o := range []string{"", " ", "a", "a "} {
			for _, n := range []string{"", " ", "  "} {
				three(s, o, n)
			}
		}
	}
	for _, s := range allStrings("a \t\n", c.n(3, 4)) {
		single(s)
	}
	for _, s := range allStrings("a\v\f\r", 2) {
		single(s)
		single(" " + s + "\n")
	}
	for _, s := range ab {
		single(s)
	}
	// every printable character, as text, separator, set and replacement
	for ch := 32; ch < 127; ch++ {
		x := string(rune(ch))
		for _, s := range []string{x, x + x, "a" + x + "b", x + "a" + x, "a\\" + x + "*"} {
			two(s, x)
			two(s, "a")
			if ch%3 == 0 || !c.quick() {
				two(s, "*"+x)
				two("*a?", x+"a")
			}
			if len(s) < 4 {
				add("Replace", w(strings.Replace(s, x, "q", -1)), s, x, "q", -1)
				add("Replace", w(strings.Replace(s, "a", x+x, 1)), s, "a", x+x, 1)
				add("Join", w(strings.Join([]string{s, x, ""}, x)), []string{s, x, ""}, x)
			}
		}
		single(x + "a" + x)
	}
	// longer texts
	for _, s := range []string{"Hello World", "aaaaaaaaaa", "abababab", "a,b,,c,", ",,", "a--b---c", "  x  y  ", "mississippi", "xyz\nxyz\n", "\n\n", "-n", "-e a", "0", "10", "a\tb\tc", strings.Repeat("ab ", 45)} {
		for _, t := range []string{"", "l", "a", "aa", "ab", ",", "--", " ", "iss", "issi", "xyz", "\n", "\t", "-", "-n", "z", "World", "Hello", "0", s, s + s, s + "x"} {
			two(s, t)
			add("ReplaceAll", w(strings.ReplaceAll(s, t, "_")), s, t, "_")
			add("ReplaceAll", w(strings.ReplaceAll(s, t, t+t)), s, t, t+t)
			add("Replace", w(strings.Replace(s, t, "", 2)), s, t, "", 2)
		}
		single(s)
	}
	// slices
	var lists func(n int, pre []string)
	lists = func(n int, pre []string) {
		for _, sep := range []string{"", "x", "ab", " ", ", "} {
			add("Join", w(strings.Join(pre, sep)), append([]string{}, pre...), sep)
		}
		if n == 0 {
			return
		}
		for _, e := range []string{"", "a", "b ", "x"} {
			lists(n-1, append(pre[:len(pre):len(pre)], e))
		}
	}
	lists(c.n(3, 4), nil)
	// sizes beyond one digit
	sizes := []int{9, 10, 11, 17}
	if !c.quick() {
		sizes = []int{8, 9, 10, 11, 12, 16, 17, 26, 33}
	}
	for _, n := range sizes {
		rep := strings.Repeat
		dist := "abcdefghijklmnopqrstuvwxyz"
		for len(dist) <= n {
			dist += dist
		}
		for _, sym = range []bool{true, false} {
			texts := []string{rep("a", n), rep("a", n-1) + "b", "b" + rep("a", n-1), rep("ab", n), dist[:n], rep("a", n) + "b" + rep("a", n)}
			for i, s := range texts {
				for _, t := range []string{"a", "aa", "ab", "b", rep("a", n-1), rep("a", n-1) + "b", dist[1:n], dist[:n], rep("a", n+1)} {
					two(s, t)
					if i%2 == 0 || !c.quick() {
						add("ReplaceAll", w(strings.ReplaceAll(s, t, dist[:n])), s, t, dist[:n])
					}
				}
				for _, k := range []int{n - 2, n - 1, n, n + 1} {
					add("Replace", w(strings.Replace(s, "a", "cd", k)), s, "a", "cd", k)
					add("Replace", w(strings.Replace(s, "", "c", k)), s, "", "c", k)
				}
			}
			for _, t := range []string{"a", "ab", ""} {
				add("Repeat", w(rep(t, n)), t, n)
			}
			add("Repeat", w(rep(dist[:n], 3)), dist[:n], 3)
			for _, sep := range []string{"x", "xy"} {
				s := "a" + rep(sep+"bc", n-1)
				add("Split", w(strings.Split(s, sep)), s, sep)
				add("Split", w(strings.Split(rep(sep, n), sep)), rep(sep, n), sep)
				var l []string
				for i := 0; i < n; i++ {
					l = append(l, dist[i:i+1+i%3])
				}
				add("Join", w(strings.Join(l, sep)), l, sep)
				add("Join", w(strings.Join(make([]string, n), sep)), make([]string, n), sep)
				add("Join", w(strings.Join(l, dist[:n])), l, dist[:n])
			}
			for _, set := range []string{dist[:n], dist[1:n], rep("a", n)} {
				for _, s := range []string{dist[:n] + "z", "z" + dist[:n], "a" + "z" + rep("a", n), rep("a", n) + "z" + dist[:n]} {
					add("TrimLeft", w(strings.TrimLeft(s, set)), s, set)
					add("TrimRight", w(strings.TrimRight(s, set)), s, set)
					add("Trim", w(strings.Trim(s, set)), s, set)
				}
			}
		}
		blank := rep(" \t\n", n)[:n]
		for _, s := range []string{blank, blank + "x", "x" + blank, blank + "x" + blank, blank + "x y" + rep(" ", n)} {
			add("TrimSpace", w(strings.TrimSpace(s)), s)
		}
	}
	sym = false
	// arguments which are results of the library themselves
	args := []struct{ code, val string }{
		{`K_strings.Trim(" ab ", " ")`, "ab"}, {`K_strings.Replace("xbx", "x", "a", 1)`, "abx"}, {`K_strings.Repeat("ab", 3)`, "ababab"}, {`K_strings.TrimPrefix("--a", "--")`, "a"},
		{`K_strings.Join([]string{"a", "b"}, "")`, "ab"}, {`K_strings.TrimSuffix("b.c", ".c")`, "b"}, {`K_strings.TrimRight(K_strings.TrimLeft("  ba  ", " "), " ")`, "ba"}, {`K_strings.ReplaceAll("cc", "c", "a")`, "aa"},
	}
	for _, a := range args {
		for _, b := range args {
			before := map[string]int{}
			for f := range groups {
				before[f] = len(groups[f])
			}
			two(a.val, b.val)
			add("ReplaceAll", w(strings.ReplaceAll(a.val, b.val, a.val)), a.val, b.val, a.val)
			add("Join", w(strings.Join([]string{"p", "q", "r"}, a.val)), []string{"p", "q", "r"}, a.val)
			add("Repeat", w(strings.Repeat(a.val, strings.Count(b.val, "b"))), a.val, stdCode("K_strings.Count("+b.code+`, "b")`))
			for f := range groups {
				for i := before[f]; i < len(groups[f]); i++ {
					k := &groups[f][i]
					for j, code := range []string{a.code, b.code, a.code} {
						if j < len(k.args) {
							if _, ok := k.args[j].(string); ok {
								if f == "Join" {
									code = a.code
								}
								k.args[j] = stdCode(code)
							}
						}
					}
				}
			}
		}
	}
	var fns []string
	for f := range groups {
		fns = append(fns, f)
	}
	sort.Strings(fns)
	for _, f := range fns {
		g := groups[f]
		// no call twice
		seen := map[string]bool{}
		var u []stdCall
		for _, k := range g {
			if !seen[k.show()] {
				seen[k.show()] = true
				u = append(u, k)
			}
		}
		const size = 24
		for i := 0; i < len(u); i += size {
			e := min(i+size, len(u))
			c.stdBatch(fmt.Sprintf("%s/%d", f, i/size), u[i:e], (i/size)%3, lib)
		}
	}
}

func init() {
	checks["C15"] = &propCheck{level: "translation_validation",
		rule: "programs that call the bundled library (the current source of std/strings.tsh) are translated by abstract interpretation of the compiler's SSA; the emitted Bash script is evaluated in the model of Bash; every result must be the one of Go's function of the same name",
		run:  func(c *Ctx) { c.stdCases() }}
}
