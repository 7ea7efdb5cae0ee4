package main

import (
	"fmt"
	"regexp"
	"sort"
	"strings"
)

// ---------------------------------------------------------------- C16: well-formed scripts

// wfBash: the emitted template parses as Bash, nested substitutions included.
func wfBash(at *Atoms, script string) []string {
	if _, err := parseBash(script); err != nil {
		e := err.(bashErr)
		return []string{fmt.Sprintf("the Bash script is not well-formed: %s", at.show(atLine.ReplaceAllString(e.msg, "")))}
	}
	return nil
}

var atLine = regexp.MustCompile(` at line \d+`)

type bcmd struct {
	text  string
	line  int
	depth int
	cond  bool // runs conditionally (inside IF/FOR or behind && ||)
}

// staticPercent keeps parameters and variables as neutral words.
func staticPercent(l string) string {
	var o strings.Builder
	r := []rune(l)
	for i := 0; i < len(r); i++ {
		if r[i] != '%' {
			o.WriteRune(r[i])
			continue
		}
		if i+1 < len(r) && r[i+1] == '%' {
			o.WriteByte('%')
			i++
			continue
		}
		j := i + 1
		if j < len(r) && r[j] == '~' {
			j++
		}
		if j < len(r) && (r[j] >= '0' && r[j] <= '9' || r[j] == '*') {
			o.WriteString("P")
			i = j
			continue
		}
		for j < len(r) && r[j] != '%' {
			j++
		}
		if j >= len(r) {
			continue
		}
		o.WriteString("V")
		i = j
	}
	return o.String()
}

// wfBatch checks the structure of a Batch template; the result lists what is wrong.
func wfBatch(at *Atoms, script string) (bad []string) {
	report := func(f string, a ...any) {
		s := at.show(fmt.Sprintf(f, a...))
		for _, b := range bad {
			if b == s {
				return
			}
		}
		bad = append(bad, s)
	}
	text := strings.ReplaceAll(script, "\r\n", "\n")
	c := &csh{sy: newSym(at, nil, 32), obs: &Obs{}, lines: strings.Split(text, "\n"), labels: map[string][]int{}, vars: map[string]string{}, static: true}
	for i, l := range c.lines {
		if n, ok := labelOf(l); ok {
			c.labels[n] = append(c.labels[n], i)
		}
	}
	for _, n := range sortedKeys(c.labels) {
		if len(c.labels[n]) > 1 {
			report("label %q is defined %d times", n, len(c.labels[n]))
		}
	}
	var cmds []bcmd
	var walk func(n cNode, depth int, cond bool)
	walk = func(n cNode, depth int, cond bool) {
		switch n := n.(type) {
		case *cSimple:
			cmds = append(cmds, bcmd{n.text, n.line, depth, cond})
		case *cBlock:
			for _, x := range n.cmds {
				walk(x, depth+1, cond)
			}
		case *cChain:
			walk(n.a, depth, cond)
			walk(n.b, depth, cond || n.op == "&&" || n.op == "||")
		case *cIf:
			walk(n.then, depth, true)
			if n.els != nil {
				walk(n.els, depth, true)
			}
		case *cFor:
			walk(n.body, depth, true)
		}
	}
	type top struct {
		from, to int // 0-based line range
	}
	var tops []top
	func() {
		defer func() {
			if e := recover(); e != nil {
				switch x := e.(type) {
				case cmdSyntax:
					report("the Batch script is not well-formed: %s", x.msg)
				case bashLimit:
					report("the Batch script is not well-formed: %s", x.msg)
				default:
					panic(e)
				}
			}
		}()
		for c.pos < len(c.lines) {
			p := c.pos
			c.bufLine = p + 1
			if t := strings.TrimLeft(c.lines[p], " \t,;="); strings.HasPrefix(t, ")") {
				report("a closing parenthesis without an opening one")
			}
			n := c.read()
			if n == nil {
				continue
			}
			if c.bi < len(c.buf) && c.buf[c.bi] == ')' {
				report("a closing parenthesis without an opening one")
			}
			walk(n, 0, false)
			tops = append(tops, top{p, c.pos - 1})
		}
	}()
	if len(bad) > 0 {
		return
	}
	name := func(t string) (cmd, arg string) {
		f := splitArgs(t)
		if len(f) == 0 {
			return "", ""
		}
		cmd = strings.ToLower(f[0])
		if len(f) > 1 {
			arg = strings.ToLower(f[1])
		}
		return
	}
	type jump struct {
		from, to int // 0-based lines
		cond     bool
	}
	var gotos []jump
	called := map[int][]int{} // label line -> call lines
	exits := map[int]bool{}   // unconditional top-level exits
	uncond := map[int]bool{}  // unconditional top-level jumps
	for _, b := range cmds {
		cmd, arg := name(b.text)
		ln := b.line - 1
		top := b.depth == 0 && !b.cond
		switch cmd {
		case "goto":
			l := strings.TrimPrefix(arg, ":")
			if l == "eof" {
				if top {
					exits[ln] = true
				}
				continue
			}
			at := c.labels[l]
			if len(at) == 0 {
				report("jump to the label %q which is not defined", l)
				continue
			}
			gotos = append(gotos, jump{ln, at[0], !top})
			if top {
				uncond[ln] = true
			}
		case "call":
			if !strings.HasPrefix(arg, ":") {
				continue
			}
			l := strings.TrimPrefix(arg, ":")
			at := c.labels[l]
			if len(at) == 0 {
				report("call of %q which the script does not contain", l)
				continue
			}
			called[at[0]] = append(called[at[0]], ln)
		case "exit":
			if top {
				exits[ln] = true
			}
		}
	}
	if len(bad) > 0 {
		return
	}
	isLabel := func(i int) bool { _, ok := labelOf(c.lines[i]); return ok }
	isComment := func(i int) bool {
		t := strings.TrimLeft(c.lines[i], " \t,;=")
		return t == "" || strings.HasPrefix(t, ":") && !isLabel(i) || strings.HasPrefix(strings.ToLower(t), "rem ")
	}
	prev := func(i int) int {
		for i--; i >= 0 && isComment(i); i-- {
		}
		return i
	}
	next := func(i int) int {
		for i++; i < len(c.lines) && isComment(i); i++ {
		}
		return i
	}
	// exitLabel: nothing but the end of the script or routine follows
	exitLabel := func(i int) bool {
		for i < len(c.lines) && (isLabel(i) || isComment(i)) {
			i++
		}
		return i >= len(c.lines) || exits[i] || strings.HasPrefix(strings.ToLower(c.lines[i]), "endlocal")
	}
	// routines
	type region struct{ from, to int }
	var routines []region
	entries := []int{}
	for l := range called {
		entries = append(entries, l)
	}
	sort.Ints(entries)
	for _, l := range entries {
		end := -1
		for i := l; i < len(c.lines); i++ {
			if exits[i] {
				end = i
				break
			}
		}
		if end < 0 {
			report("the routine %q does not end", strings.TrimSpace(c.lines[l]))
			continue
		}
		if p := prev(l); p >= 0 && !uncond[p] && !exits[p] {
			report("the code before the routine %q runs into it", strings.TrimSpace(c.lines[l]))
		}
		for _, r := range routines {
			if l <= r.to {
				report("the routine %q lies inside of another one", strings.TrimSpace(c.lines[l]))
			}
		}
		routines = append(routines, region{l, end})
	}
	inR := func(i int) int {
		for k, r := range routines {
			if i >= r.from && i <= r.to {
				return k
			}
		}
		return -1
	}
	// calls from code that is only reachable through an uncalled routine are irrelevant: usage closure
	live := map[int]bool{}
	work := []int{-1}
	seen := map[int]bool{-1: true}
	for len(work) > 0 {
		r := work[0]
		work = work[1:]
		for l, from := range called {
			for _, f := range from {
				if inR(f) == r {
					live[l] = true
					if k := inR(l); !seen[k] {
						seen[k] = true
						work = append(work, k)
					}
				}
			}
		}
	}
	gotoTo := map[int]bool{}
	for _, g := range gotos {
		gotoTo[g.to] = true
	}
	for i := range c.lines {
		if !isLabel(i) || hasAtom(c.lines[i]) {
			continue
		}
		if len(called[i]) > 0 {
			if !live[i] {
				report("the helper %q is contained but never used", strings.TrimSpace(c.lines[i]))
			}
			continue
		}
		if gotoTo[i] {
			continue
		}
		p := prev(i)
		if p < 0 {
			continue
		}
		if exits[p] {
			report("the helper %q is contained but never used", strings.TrimSpace(c.lines[i]))
		}
		if uncond[p] {
			_, arg := name(c.lines[p])
			if at := c.labels[strings.TrimPrefix(arg, ":")]; len(at) > 0 && at[0] > i {
				if q := prev(at[0]); q >= 0 && exits[q] {
					report("the helper %q is contained but never used", strings.TrimSpace(c.lines[i]))
				}
			}
		}
	}
	// jumps stay inside of routines
	for _, g := range gotos {
		a, b := inR(g.from), inR(g.to)
		if a != b && !(a >= 0 && exitLabel(g.to) && b < 0) {
			report("the jump to %q leaves or enters a routine", strings.TrimSpace(c.lines[g.to]))
		}
	}
	// variables
	for _, n := range cmdUndefined(c.lines) {
		report("the variable %q is used but the script never sets it", n)
	}
	// loops
	loops := map[int]int{} // head -> last backward jump
	for _, g := range gotos {
		if g.to <= g.from && g.from > loops[g.to] {
			loops[g.to] = g.from
		}
	}
	heads := []int{}
	for h := range loops {
		heads = append(heads, h)
	}
	sort.Ints(heads)
	for i, h := range heads {
		e := loops[h]
		for _, h2 := range heads[i+1:] {
			if h2 <= e && loops[h2] > e {
				report("the loops %q and %q overlap", strings.TrimSpace(c.lines[h]), strings.TrimSpace(c.lines[h2]))
			}
		}
		// the end of the loop: behind the closing parentheses
		end := e
		for end+1 < len(c.lines) && strings.TrimSpace(c.lines[end+1]) == ")" {
			end++
			break
		}
		for _, g := range gotos {
			inside := g.from >= h && g.from <= e
			if !inside && g.to > h && g.to <= e {
				report("the jump to %q enters the loop %q", strings.TrimSpace(c.lines[g.to]), strings.TrimSpace(c.lines[h]))
			}
			if inside && (g.to < h || g.to > e) {
				ok := exitLabel(g.to) || g.to == next(end) || inR(h) != inR(g.to)
				for _, h2 := range heads {
					if h2 < h && loops[h2] > e {
						e2 := loops[h2]
						if e2+1 < len(c.lines) && strings.TrimSpace(c.lines[e2+1]) == ")" {
							e2++
						}
						if g.to == h2 || g.to == next(e2) {
							ok = true
						}
					}
				}
				// an if end directly behind the loop shares the place
				if !ok {
					report("the jump to %q leaves the loop %q", strings.TrimSpace(c.lines[g.to]), strings.TrimSpace(c.lines[h]))
				}
			}
		}
	}
	return
}

var reSet = regexp.MustCompile(`(?i)(?:^|[^A-Za-z0-9_])set\s+(?:/[ap]\s+)?"?([^=\s"!%]+)=`)

// cmdUndefined: variables the script expands by name but never sets.
func cmdUndefined(lines []string) (bad []string) {
	set := map[string]bool{"errorlevel": true}
	for _, l := range lines {
		for _, m := range reSet.FindAllStringSubmatch(l, -1) {
			set[strings.ToLower(m[1])] = true
		}
	}
	seen := map[string]bool{}
	for _, l := range lines {
		if strings.HasPrefix(strings.TrimLeft(l, " \t"), ":") {
			continue
		}
		r := []rune(l)
		for i := 0; i < len(r); i++ {
			if r[i] == '^' {
				i++
				continue
			}
			if r[i] != '!' {
				continue
			}
			j := i + 1
			for j < len(r) && r[j] != '!' {
				j++
			}
			if j >= len(r) {
				break
			}
			n, _, _ := strings.Cut(strings.ToLower(string(r[i+1:j])), ":")
			i = j
			plain := n != "" && !strings.ContainsAny(n, "%!^ ") && !hasAtom(n)
			if plain && !set[n] && !seen[n] {
				seen[n] = true
				bad = append(bad, n)
			}
		}
	}
	return
}

func (c *Ctx) wellFormed(key, src string) {
	if c.collect != nil {
		c.collect(key, oneFile(src))
		return
	}
	c.do(key, func() { c.wellFormedNow(key, oneFile(src), src) })
}

func (c *Ctx) wellFormedNow(key string, p *Project, src string) {
	pr := prepare(p)
	for _, t := range bothTargets {
		r := c.a.transpileOne(pr, t)
		c.analysed(r.Funcs)
		k := key + "/" + t
		switch r.Kind {
		case "script":
		case "error":
			c.count("rejected programs (no script, no obligation)", 1)
			if strings.HasPrefix(key, "must/") {
				c.violate(k, kindText(r), c.progDetail(src, p, r, nil, pr))
			}
			continue
		case "panic":
			c.count("programs without a script", 1)
			continue
		default:
			c.violate(k, "undecided: "+kindText(r), c.progDetail(src, p, r, nil, pr))
			continue
		}
		c.obligation(1)
		c.count("scripts for "+t, 1)
		sc := r.Script.flat()
		var bad []string
		if t == "bash" {
			bad = wfBash(pr.Atoms, sc)
		} else {
			bad = wfBatch(pr.Atoms, sc)
		}
		for _, b := range bad {
			c.violate(k, b, c.progDetail(src, p, r, nil, pr))
		}
	}
}
