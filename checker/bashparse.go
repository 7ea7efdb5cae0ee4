package main

import (
	"fmt"
	"regexp"
	"strings"
)

// ---------------------------------------------------------------- model of the Bash grammar
// A parser for the part of Bash that emitted scripts may use. Atom runes count as word characters.

type bSyntax struct {
	msg  string
	line int
}
type bUnsupported struct {
	msg  string
	line int
}

type bPart struct {
	k  byte // 'l' literal, 'p' parameter, 'c' command substitution, 'a' arithmetic
	s  string
	q  bool
	p  *bParam
	c  *bList
	w  *bWord
	as *bAssign // k 'A': assignment argument of a declaration builtin
}
type bWord struct {
	parts []bPart
	pos   int
}
type bParam struct {
	name   string
	indir  bool // ${!x}
	length bool // ${#x}
	idx    *bWord
	op     string
	arg    *bWord
	arg2   *bWord
}
type bAssign struct {
	name string
	idx  *bWord
	app  bool
	val  *bWord
	arr  []bAssignElem
	isA  bool
}
type bAssignElem struct {
	idx *bWord
	val *bWord
}
type bRedir struct {
	fd int
	op string
	w  *bWord
}
type bNode interface{}
type bAndOr struct {
	pipes []*bPipe
	ops   []string
}
type bPipe struct {
	neg  bool
	cmds []bNode
}
type bList struct{ items []*bAndOr }
type bSimple struct {
	assigns []*bAssign
	words   []*bWord
	redirs  []bRedir
	pos     int
}
type bIf struct {
	conds, bodies []*bList
	els           *bList
	pos           int
}
type bWhile struct {
	until      bool
	cond, body *bList
	pos        int
}
type bForIn struct {
	name  string
	words []*bWord
	hasIn bool
	body  *bList
	pos   int
}
type bForArith struct {
	init, cond, post *bWord
	body             *bList
	pos              int
}
type bCaseItem struct {
	pats []*bWord
	body *bList
	term string
}
type bCase struct {
	w     *bWord
	items []bCaseItem
	pos   int
}
type bFunc struct {
	name string
	body bNode
	pos  int
}
type bGroup struct {
	l   *bList
	sub bool
	pos int
}
type bArithCmd struct {
	w   *bWord
	pos int
}
type bCond struct {
	x   *bCondX
	pos int
}
type bCondX struct {
	op   string // && || ! unary binary word
	a, b *bCondX
	l, r *bWord
}
type bRedirNode struct {
	n      bNode
	redirs []bRedir
}

type bparser struct {
	r    []rune
	i    int
	base int // line number of the enclosing command (eval) or 0
}

func (p *bparser) line() int {
	n := 1
	for k := 0; k < p.i && k < len(p.r); k++ {
		if p.r[k] == '\n' {
			n++
		}
	}
	return n
}
func (p *bparser) fail(f string, a ...any) { panic(bSyntax{fmt.Sprintf(f, a...), p.line()}) }
func (p *bparser) unsup(f string, a ...any) {
	panic(bUnsupported{fmt.Sprintf(f, a...), p.line()})
}

func parseBash(src string) (l *bList, err error) {
	p := &bparser{r: []rune(src)}
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case bSyntax:
				err = fmt.Errorf("syntax error at line %d: %s", x.line, x.msg)
				err = bashErr{err.Error(), x.line, false}
			case bUnsupported:
				err = bashErr{fmt.Sprintf("construct outside the shell model at line %d: %s", x.line, x.msg), x.line, true}
			default:
				panic(e)
			}
		}
	}()
	l = p.list(nil)
	p.blank()
	if p.i < len(p.r) {
		p.fail("unexpected %q", string(p.r[p.i]))
	}
	return l, nil
}

type bashErr struct {
	msg   string
	line  int
	unsup bool
}

func (e bashErr) Error() string { return e.msg }

func (p *bparser) peek() rune {
	if p.i < len(p.r) {
		return p.r[p.i]
	}
	return 0
}
func (p *bparser) at(s string) bool {
	rs := []rune(s)
	if p.i+len(rs) > len(p.r) {
		return false
	}
	for k, c := range rs {
		if p.r[p.i+k] != c {
			return false
		}
	}
	return true
}

// blank skips blanks, line continuations and comments (not newlines).
func (p *bparser) blank() {
	for p.i < len(p.r) {
		c := p.r[p.i]
		if c == ' ' || c == '\t' {
			p.i++
		} else if c == '\\' && p.i+1 < len(p.r) && p.r[p.i+1] == '\n' {
			p.i += 2
		} else if c == '#' && (p.i == 0 || strings.ContainsRune(" \t\n;&|()", p.r[p.i-1])) {
			for p.i < len(p.r) && p.r[p.i] != '\n' {
				p.i++
			}
		} else {
			return
		}
	}
}

// newlines skips blanks and newlines.
func (p *bparser) newlines() {
	for {
		p.blank()
		if p.peek() != '\n' {
			return
		}
		p.i++
	}
}

func isMeta(c rune) bool { return strings.ContainsRune(" \t\n;&|()<>", c) }

func isNameStart(c rune) bool {
	return c == '_' || c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || isAtomRune(c)
}
func isNameChar(c rune) bool { return isNameStart(c) || c >= '0' && c <= '9' }

// peekWord gives the reserved-word candidate at the current position (unquoted literal), or "".
func (p *bparser) peekWord() string {
	k := p.i
	for k < len(p.r) && !isMeta(p.r[k]) {
		c := p.r[k]
		if c == '"' || c == '\'' || c == '\\' || c == '$' || c == '`' {
			return ""
		}
		k++
	}
	return string(p.r[p.i:k])
}

var bashReserved = map[string]bool{"if": true, "then": true, "else": true, "elif": true, "fi": true, "do": true, "done": true,
	"case": true, "esac": true, "while": true, "until": true, "for": true, "{": true, "}": true, "!": true, "in": true, "function": true,
	"time": true, "select": true, "[[": true, "]]": true, "coproc": true}

// list parses commands until one of the stop words (or EOF / ')').
func (p *bparser) list(stop []string) *bList {
	l := &bList{}
	for {
		p.newlines()
		if p.i >= len(p.r) || p.peek() == ')' {
			return l
		}
		if p.at(";;") {
			return l
		}
		w := p.peekWord()
		for _, s := range stop {
			if w == s {
				return l
			}
		}
		switch w {
		case "then", "else", "elif", "fi", "do", "done", "esac", "}", "in":
			if w != "in" {
				p.fail("unexpected %q", w)
			}
		}
		if strings.ContainsRune(";&|", p.peek()) {
			p.fail("unexpected %q", string(p.peek()))
		}
		l.items = append(l.items, p.andOr())
		p.blank()
		switch {
		case p.i >= len(p.r) || p.peek() == ')':
			return l
		case p.at(";;"):
			return l
		case p.peek() == ';' || p.peek() == '\n':
			p.i++
		case p.peek() == '&':
			p.unsup("background command")
		default:
			p.fail("unexpected %q", string(p.peek()))
		}
	}
}

func (p *bparser) andOr() *bAndOr {
	a := &bAndOr{}
	for {
		a.pipes = append(a.pipes, p.pipe())
		p.blank()
		if p.at("&&") || p.at("||") {
			a.ops = append(a.ops, string(p.r[p.i:p.i+2]))
			p.i += 2
			p.newlines()
			continue
		}
		return a
	}
}

func (p *bparser) pipe() *bPipe {
	pp := &bPipe{}
	p.blank()
	for p.peekWord() == "!" {
		pp.neg = !pp.neg
		p.i++
		p.blank()
	}
	if p.peekWord() == "time" {
		p.unsup("time")
	}
	for {
		pp.cmds = append(pp.cmds, p.command())
		p.blank()
		if p.peek() == '|' && !p.at("||") {
			if p.at("|&") {
				p.unsup("|&")
			}
			p.i++
			p.newlines()
			continue
		}
		return pp
	}
}

func (p *bparser) expectWord(w string) {
	p.newlines()
	if p.peekWord() != w {
		p.fail("expected %q, got %q", w, p.peekWord())
	}
	p.i += len([]rune(w))
}

func (p *bparser) command() bNode {
	p.blank()
	n := p.command1()
	var rs []bRedir
	if _, ok := n.(*bSimple); !ok {
		for {
			p.blank()
			r, ok := p.redir()
			if !ok {
				break
			}
			rs = append(rs, r)
		}
		if len(rs) > 0 {
			return &bRedirNode{n, rs}
		}
	}
	return n
}

func (p *bparser) body(stop ...string) *bList {
	l := p.list(stop)
	if len(l.items) == 0 {
		p.fail("empty command list before %q", p.peekWord())
	}
	return l
}

func (p *bparser) command1() bNode {
	pos := p.i
	w := p.peekWord()
	switch w {
	case "if":
		p.i += 2
		n := &bIf{pos: pos}
		n.conds = append(n.conds, p.body("then"))
		p.expectWord("then")
		n.bodies = append(n.bodies, p.body("elif", "else", "fi"))
		for {
			p.newlines()
			switch p.peekWord() {
			case "elif":
				p.i += 4
				n.conds = append(n.conds, p.body("then"))
				p.expectWord("then")
				n.bodies = append(n.bodies, p.body("elif", "else", "fi"))
				continue
			case "else":
				p.i += 4
				n.els = p.body("fi")
			}
			break
		}
		p.expectWord("fi")
		return n
	case "while", "until":
		p.i += 5
		n := &bWhile{until: w == "until", pos: pos}
		n.cond = p.body("do")
		p.expectWord("do")
		n.body = p.body("done")
		p.expectWord("done")
		return n
	case "for":
		p.i += 3
		p.blank()
		if p.at("((") {
			p.i += 2
			n := &bForArith{pos: pos}
			n.init = p.arithUntil(";")
			n.cond = p.arithUntil(";")
			n.post = p.arithUntil("))")
			p.blank()
			if p.peek() == ';' {
				p.i++
			}
			p.newlines()
			if p.peekWord() == "{" {
				p.i++
				n.body = p.body("}")
				p.expectWord("}")
				return n
			}
			p.expectWord("do")
			n.body = p.body("done")
			p.expectWord("done")
			return n
		}
		n := &bForIn{pos: pos}
		n.name = p.peekWord()
		if !isName(n.name) {
			p.fail("`%s': not a valid identifier", n.name)
		}
		p.i += len([]rune(n.name))
		p.newlines()
		if p.peekWord() == "in" {
			p.i += 2
			n.hasIn = true
			for {
				p.blank()
				if p.i >= len(p.r) || isMeta(p.peek()) {
					break
				}
				n.words = append(n.words, p.word())
				if n.words[len(n.words)-1].braces() {
					p.unsup("brace expansion")
				}
			}
		}
		p.blank()
		if p.peek() == ';' {
			p.i++
		}
		p.expectWord("do")
		n.body = p.body("done")
		p.expectWord("done")
		return n
	case "case":
		p.i += 4
		p.blank()
		n := &bCase{pos: pos}
		n.w = p.word()
		p.expectWord("in")
		for {
			p.newlines()
			if p.peekWord() == "esac" {
				p.i += 4
				return n
			}
			if p.i >= len(p.r) {
				p.fail("unexpected end of file in case")
			}
			if p.peek() == '(' {
				p.i++
			}
			it := bCaseItem{}
			for {
				p.blank()
				it.pats = append(it.pats, p.word())
				p.blank()
				if p.peek() == '|' {
					p.i++
					continue
				}
				break
			}
			if p.peek() != ')' {
				p.fail("expected ) in case")
			}
			p.i++
			it.body = p.list([]string{"esac"})
			p.newlines()
			if p.at(";;&") {
				p.i += 3
				it.term = ";;&"
			} else if p.at(";;") {
				p.i += 2
				it.term = ";;"
			} else if p.at(";&") {
				p.i += 2
				it.term = ";&"
			}
			n.items = append(n.items, it)
		}
	case "{":
		p.i++
		n := &bGroup{pos: pos}
		n.l = p.body("}")
		p.expectWord("}")
		return n
	case "[[":
		p.i += 2
		x := p.condOr()
		p.newlines()
		if p.peekWord() != "]]" {
			p.fail("expected ]]")
		}
		p.i += 2
		return &bCond{x, pos}
	case "function":
		p.i += 8
		p.blank()
		name := p.peekWord()
		p.i += len([]rune(name))
		p.blank()
		if p.at("()") {
			p.i += 2
		}
		return p.funcBody(name, pos)
	case "select", "coproc":
		p.unsup("%s", w)
	case "]]", "in":
	case "then", "else", "elif", "fi", "do", "done", "esac", "}":
		p.fail("unexpected %q", w)
	}
	if p.at("((") {
		p.i += 2
		return &bArithCmd{p.arithUntil("))"), pos}
	}
	if p.peek() == '(' {
		p.i++
		l := p.list(nil)
		if p.peek() != ')' {
			p.fail("expected )")
		}
		if len(l.items) == 0 {
			p.fail("unexpected )")
		}
		p.i++
		return &bGroup{l, true, pos}
	}
	// function definition: name blank* ()
	if w != "" {
		k := p.i
		for k < len(p.r) && !isMeta(p.r[k]) {
			k++
		}
		j := k
		for j < len(p.r) && (p.r[j] == ' ' || p.r[j] == '\t') {
			j++
		}
		if j < len(p.r) && p.r[j] == '(' && k > p.i && !strings.Contains(w, "=") {
			j++
			for j < len(p.r) && (p.r[j] == ' ' || p.r[j] == '\t') {
				j++
			}
			if j >= len(p.r) || p.r[j] != ')' {
				p.fail("unexpected ( after %q", w)
			}
			p.i = j + 1
			return p.funcBody(w, pos)
		}
	}
	return p.simple()
}

func (p *bparser) funcBody(name string, pos int) bNode {
	p.newlines()
	n := &bFunc{name: name, pos: pos}
	switch {
	case p.peekWord() == "{", p.peek() == '(', p.peekWord() == "if", p.peekWord() == "while", p.peekWord() == "for", p.peekWord() == "case", p.peekWord() == "[[":
		n.body = p.command()
	default:
		p.fail("function body expected")
	}
	return n
}

func isName(s string) bool {
	for i, c := range s {
		if i == 0 && !isNameStart(c) || !isNameChar(c) {
			return false
		}
	}
	return s != ""
}

var declBuiltins = map[string]bool{"local": true, "declare": true, "typeset": true, "export": true, "readonly": true}

func (p *bparser) simple() bNode {
	s := &bSimple{pos: p.i}
	for {
		p.blank()
		if p.i >= len(p.r) {
			break
		}
		if r, ok := p.redir(); ok {
			s.redirs = append(s.redirs, r)
			continue
		}
		c := p.peek()
		if c == '(' {
			p.fail("unexpected (")
		}
		if isMeta(c) {
			break
		}
		if len(s.words) == 0 {
			if a := p.assign(); a != nil {
				s.assigns = append(s.assigns, a)
				continue
			}
		} else if len(s.words[0].parts) == 1 && s.words[0].parts[0].k == 'l' && declBuiltins[s.words[0].parts[0].s] {
			// declaration builtins take assignments as arguments: keep as word with array support
			k := p.i
			if a := p.assign(); a != nil {
				s.words = append(s.words, &bWord{pos: k, parts: []bPart{{k: 'A', as: a}}})
				continue
			}
		}
		s.words = append(s.words, p.word())
		if s.words[len(s.words)-1].braces() {
			p.unsup("brace expansion")
		}
	}
	if len(s.words) == 0 && len(s.assigns) == 0 && len(s.redirs) == 0 {
		if p.i < len(p.r) {
			p.fail("unexpected %q", string(p.peek()))
		}
		p.fail("unexpected end of file")
	}
	return s
}

// assign parses NAME[idx]+=value at the current position, or returns nil without moving.
func (p *bparser) assign() *bAssign {
	start := p.i
	k := p.i
	for k < len(p.r) && isNameChar(p.r[k]) {
		k++
	}
	if k == p.i || !isNameStart(p.r[p.i]) {
		return nil
	}
	a := &bAssign{name: string(p.r[p.i:k])}
	p.i = k
	if p.peek() == '[' {
		p.i++
		a.idx = p.until("]")
		if a.idx == nil {
			p.i = start
			return nil
		}
	}
	if p.at("+=") {
		a.app = true
		p.i += 2
	} else if p.peek() == '=' {
		p.i++
	} else {
		p.i = start
		return nil
	}
	if p.peek() == '(' && a.idx == nil {
		p.i++
		a.isA = true
		for {
			p.newlines()
			if p.i >= len(p.r) {
				p.fail("unterminated array")
			}
			if p.peek() == ')' {
				p.i++
				return a
			}
			if isMeta(p.peek()) {
				p.fail("unexpected %q in array", string(p.peek()))
			}
			e := bAssignElem{}
			if p.peek() == '[' {
				p.i++
				e.idx = p.until("]")
				if e.idx == nil || p.peek() != '=' {
					p.unsup("array element")
				}
				p.i++
			}
			e.val = p.word()
			a.arr = append(a.arr, e)
		}
	}
	if p.i >= len(p.r) || isMeta(p.peek()) {
		a.val = &bWord{pos: p.i}
		return a
	}
	a.val = p.word()
	return a
}

func (p *bparser) redir() (bRedir, bool) {
	k := p.i
	fd := -1
	for k < len(p.r) && p.r[k] >= '0' && p.r[k] <= '9' {
		if fd < 0 {
			fd = 0
		}
		fd = fd*10 + int(p.r[k]-'0')
		k++
	}
	if k >= len(p.r) {
		return bRedir{}, false
	}
	rest := string(p.r[k:min(len(p.r), k+3)])
	op := ""
	for _, o := range []string{"&>>", "<<<", "<<-", "&>", ">>", "<<", ">&", "<&", "<>", ">|", ">", "<"} {
		if strings.HasPrefix(rest, o) {
			op = o
			break
		}
	}
	if op == "" || (strings.HasPrefix(op, "&") && fd >= 0) {
		return bRedir{}, false
	}
	if op == "<" && k+1 < len(p.r) && p.r[k+1] == '(' || op == ">" && k+1 < len(p.r) && p.r[k+1] == '(' {
		p.unsup("process substitution")
	}
	p.i = k + len(op)
	if op == "<<" || op == "<<-" {
		p.unsup("here-document")
	}
	p.blank()
	if c := p.peek(); (c == '<' || c == '>') && p.i+1 < len(p.r) && p.r[p.i+1] == '(' {
		p.unsup("process substitution")
	}
	if p.i >= len(p.r) || isMeta(p.peek()) {
		p.fail("redirection without target")
	}
	if fd < 0 {
		if strings.HasPrefix(op, "<") {
			fd = 0
		} else {
			fd = 1
		}
	}
	return bRedir{fd, op, p.word()}, true
}

// word parses one word.
func (p *bparser) word() *bWord {
	w := &bWord{pos: p.i}
	for p.i < len(p.r) && !isMeta(p.peek()) {
		p.part(w, false, "")
	}
	if len(w.parts) == 0 {
		p.fail("word expected, got %q", string(p.peek()))
	}
	return w
}

var braceForm = regexp.MustCompile(`\{[^{}]*(,|\.\.)[^{}]*\}`)

// braces: the word is subject to brace expansion.
func (w *bWord) braces() bool {
	t := ""
	for _, p := range w.parts {
		if p.k == 'l' && !p.q {
			t += p.s
		} else {
			t += "x"
		}
	}
	return strings.Contains(t, "{") && braceForm.MatchString(t)
}

func (w *bWord) lit(s string, q bool) {
	if n := len(w.parts); n > 0 && w.parts[n-1].k == 'l' && w.parts[n-1].q == q {
		w.parts[n-1].s += s
		return
	}
	w.parts = append(w.parts, bPart{k: 'l', s: s, q: q})
}

// part parses one element of a word. inq: inside double quotes.
func (p *bparser) part(w *bWord, inq bool, stop string) {
	c := p.peek()
	switch {
	case c == '\\':
		p.i++
		if p.i >= len(p.r) {
			w.lit("\\", true)
			return
		}
		d := p.r[p.i]
		p.i++
		if d == '\n' {
			return
		}
		if inq && !strings.ContainsRune("$`\"\\", d) {
			if strings.ContainsRune(stop, d) && d == '}' {
				w.lit(string(d), true)
				return
			}
			w.lit("\\"+string(d), true)
			return
		}
		w.lit(string(d), true)
	case c == '\'' && !inq:
		p.i++
		k := p.i
		for k < len(p.r) && p.r[k] != '\'' {
			k++
		}
		if k >= len(p.r) {
			p.fail("unterminated single quote")
		}
		w.lit(string(p.r[p.i:k]), true)
		p.i = k + 1
	case c == '"':
		p.i++
		w.lit("", true)
		for {
			if p.i >= len(p.r) {
				p.fail("unterminated double quote")
			}
			if p.peek() == '"' {
				p.i++
				break
			}
			p.part(w, true, "")
		}
	case c == '`':
		p.i++
		var b strings.Builder
		for {
			if p.i >= len(p.r) {
				p.fail("unterminated backquote")
			}
			d := p.r[p.i]
			if d == '`' {
				p.i++
				break
			}
			if d == '\\' && p.i+1 < len(p.r) && strings.ContainsRune("$`\\", p.r[p.i+1]) {
				p.i++
				d = p.r[p.i]
			}
			b.WriteRune(d)
			p.i++
		}
		sub := &bparser{r: []rune(b.String())}
		l := sub.list(nil)
		if sub.i < len(sub.r) {
			p.fail("unexpected %q in command substitution", string(sub.peek()))
		}
		w.parts = append(w.parts, bPart{k: 'c', q: inq, c: l})
	case c == '$':
		p.dollar(w, inq)
	default:
		w.lit(string(c), inq)
		p.i++
	}
}

func (p *bparser) dollar(w *bWord, inq bool) {
	p.i++
	if p.i >= len(p.r) {
		w.lit("$", inq)
		return
	}
	c := p.peek()
	switch {
	case p.at("(("):
		p.i += 2
		x := p.arithUntil("))")
		w.parts = append(w.parts, bPart{k: 'a', q: inq, w: x})
	case c == '(':
		p.i++
		l := p.list(nil)
		if p.peek() != ')' {
			p.fail("unterminated command substitution")
		}
		p.i++
		w.parts = append(w.parts, bPart{k: 'c', q: inq, c: l})
	case c == '{':
		p.i++
		w.parts = append(w.parts, bPart{k: 'p', q: inq, p: p.braceParam()})
	case isNameStart(c):
		k := p.i
		for k < len(p.r) && isNameChar(p.r[k]) {
			k++
		}
		w.parts = append(w.parts, bPart{k: 'p', q: inq, p: &bParam{name: string(p.r[p.i:k])}})
		p.i = k
	case c >= '0' && c <= '9' || strings.ContainsRune("?#@*$!-", c):
		w.parts = append(w.parts, bPart{k: 'p', q: inq, p: &bParam{name: string(c)}})
		p.i++
	case c == '\'' && !inq:
		p.i++
		var b strings.Builder
		for {
			if p.i >= len(p.r) {
				p.fail("unterminated $'")
			}
			d := p.r[p.i]
			p.i++
			if d == '\'' {
				break
			}
			if d == '\\' && p.i < len(p.r) {
				e := p.r[p.i]
				p.i++
				switch e {
				case 'n':
					b.WriteRune('\n')
				case 't':
					b.WriteRune('\t')
				case 'r':
					b.WriteRune('\r')
				case 'a':
					b.WriteRune(7)
				case 'e':
					b.WriteRune(27)
				case '\\', '\'', '"', '?':
					b.WriteRune(e)
				default:
					p.unsup("escape \\%c in $'", e)
				}
				continue
			}
			b.WriteRune(d)
		}
		w.lit(b.String(), true)
	case c == '"' && !inq:
		// $"..." is a plain double-quoted string
	default:
		w.lit("$", inq)
	}
}

// until parses word parts up to the (unquoted, unnested) terminator, which is consumed; nil if absent.
func (p *bparser) until(term string) *bWord {
	w := &bWord{pos: p.i}
	depth := 0
	for p.i < len(p.r) {
		if depth == 0 && p.at(term) {
			p.i += len([]rune(term))
			return w
		}
		switch p.peek() {
		case '[':
			depth++
		case ']':
			depth--
		}
		p.part(w, false, term)
	}
	return nil
}

// arithUntil parses an arithmetic expression text up to the terminator.
func (p *bparser) arithUntil(term string) *bWord {
	w := &bWord{pos: p.i}
	depth := 0
	for {
		if p.i >= len(p.r) {
			p.fail("unterminated arithmetic expression")
		}
		if depth == 0 && p.at(term) {
			p.i += len([]rune(term))
			return w
		}
		switch p.peek() {
		case '(':
			depth++
		case ')':
			depth--
			if depth < 0 {
				p.fail("unbalanced ) in arithmetic expression")
			}
		case '"':
			p.i++ // quotes are removed
			continue
		}
		p.part(w, true, "")
	}
}

func (p *bparser) braceParam() *bParam {
	a := &bParam{}
	if p.peek() == '#' && p.i+1 < len(p.r) && p.r[p.i+1] != '}' && (isNameStart(p.r[p.i+1]) || strings.ContainsRune("@*0123456789?", p.r[p.i+1])) {
		a.length = true
		p.i++
	} else if p.peek() == '!' && p.i+1 < len(p.r) && p.r[p.i+1] != '}' {
		a.indir = true
		p.i++
	}
	k := p.i
	c := p.peek()
	switch {
	case isNameStart(c):
		for k < len(p.r) && isNameChar(p.r[k]) {
			k++
		}
	case c >= '0' && c <= '9':
		for k < len(p.r) && p.r[k] >= '0' && p.r[k] <= '9' {
			k++
		}
	case strings.ContainsRune("?#@*$!-", c):
		k++
	default:
		p.fail("bad substitution at %q", string(c))
	}
	a.name = string(p.r[p.i:k])
	p.i = k
	if p.peek() == '[' {
		p.i++
		a.idx = p.until("]")
		if a.idx == nil {
			p.fail("bad substitution")
		}
	}
	if p.peek() == '}' {
		p.i++
		return a
	}
	for _, o := range []string{":-", ":=", ":+", ":?", "##", "%%", "//", "/#", "/%", "^^", ",,", "-", "=", "+", "?", "#", "%", "/", "^", ",", ":", "@"} {
		if p.at(o) {
			a.op = o
			p.i += len(o)
			break
		}
	}
	if a.op == "" || a.length {
		p.fail("bad substitution")
	}
	arg := func(stops string) (*bWord, rune) {
		w := &bWord{pos: p.i}
		depth := 0
		for {
			if p.i >= len(p.r) {
				p.fail("unterminated ${")
			}
			c := p.peek()
			if depth == 0 && strings.ContainsRune(stops, c) {
				p.i++
				return w, c
			}
			if a.op == ":" {
				if c == '(' {
					depth++
				} else if c == ')' {
					depth--
				}
			}
			p.part(w, a.op == ":", stops)
		}
	}
	switch a.op {
	case ":":
		var t rune
		a.arg, t = arg(":}")
		if t == ':' {
			a.arg2, _ = arg("}")
		}
	case "/", "//", "/#", "/%":
		var t rune
		a.arg, t = arg("/}")
		if t == '/' {
			a.arg2, _ = arg("}")
		}
	case "@":
		p.unsup("${..@..}")
	default:
		a.arg, _ = arg("}")
	}
	return a
}

// ---- [[ ]]

func (p *bparser) condOr() *bCondX {
	x := p.condAnd()
	for {
		p.newlines()
		if p.at("||") {
			p.i += 2
			x = &bCondX{op: "||", a: x, b: p.condAnd()}
			continue
		}
		return x
	}
}
func (p *bparser) condAnd() *bCondX {
	x := p.condNot()
	for {
		p.newlines()
		if p.at("&&") {
			p.i += 2
			x = &bCondX{op: "&&", a: x, b: p.condNot()}
			continue
		}
		return x
	}
}
func (p *bparser) condNot() *bCondX {
	p.newlines()
	if p.peekWord() == "!" {
		p.i++
		return &bCondX{op: "!", a: p.condNot()}
	}
	if p.peek() == '(' {
		p.i++
		x := p.condOr()
		p.newlines()
		if p.peek() != ')' {
			p.fail("expected ) in [[")
		}
		p.i++
		return x
	}
	w := p.peekWord()
	if len(w) == 2 && w[0] == '-' && strings.ContainsRune("zneafdsrwxLhvot", rune(w[1])) {
		p.i += 2
		p.blank()
		return &bCondX{op: w, l: p.word()}
	}
	l := p.word()
	p.blank()
	op := ""
	for _, o := range []string{"==", "!=", "=~", "=", "<", ">"} {
		if p.at(o) {
			op = o
			break
		}
	}
	if op == "" {
		switch w := p.peekWord(); w {
		case "-eq", "-ne", "-lt", "-le", "-gt", "-ge":
			op = w
		}
	}
	if op == "" {
		return &bCondX{op: "-n", l: l}
	}
	p.i += len(op)
	p.blank()
	if op == "=~" {
		p.unsup("=~")
	}
	return &bCondX{op: op, l: l, r: p.word()}
}
