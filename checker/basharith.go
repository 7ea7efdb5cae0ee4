package main

import (
	"fmt"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- arithmetic expressions (bash and set /A)

type aTok struct {
	k byte // 'n' number, 'v' variable, 'o' operator, 0 end
	s string
	l Lin
}

// arithEnv gives access to the variables of the shell model.
type arithEnv struct {
	sy    *Sym
	get   func(name string, idx *Lin) string
	set   func(name string, idx *Lin, v string)
	ops   []string // operators by length
	depth int
	bash  bool
}

type arithErr struct{ msg string }

type arithP struct {
	env  *arithEnv
	r    []rune
	i    int
	noev int // >0: do not evaluate side effects
	last byte
}

var bashOps = []string{"<<=", ">>=", "**", "==", "!=", "<=", ">=", "&&", "||", "<<", ">>", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=", "++", "--",
	"+", "-", "*", "/", "%", "<", ">", "!", "~", "=", "(", ")", "?", ":", ",", "&", "|", "^"}
var cmdOps = []string{"<<=", ">>=", "<<", ">>", "+=", "-=", "*=", "/=", "%=", "&=", "|=", "^=",
	"+", "-", "*", "/", "%", "!", "~", "=", "(", ")", ",", "&", "|", "^"}

func (e *arithEnv) eval(text string) (res Lin, err error) {
	if e.depth > 8 {
		return Lin{}, fmt.Errorf("expression recursion level exceeded")
	}
	e.depth++
	defer func() {
		e.depth--
		if x := recover(); x != nil {
			if a, ok := x.(arithErr); ok {
				err = fmt.Errorf("%s", a.msg)
				return
			}
			panic(x)
		}
	}()
	p := &arithP{env: e, r: []rune(text)}
	if strings.TrimSpace(text) == "" {
		if e.bash {
			return lc(0), nil
		}
		return Lin{}, fmt.Errorf("Missing operand.")
	}
	v := p.comma()
	if t := p.peek(); t.k != 0 {
		return Lin{}, fmt.Errorf("syntax error in expression (error token is %q)", t.s)
	}
	return v, nil
}

func (p *arithP) err(f string, a ...any) { panic(arithErr{fmt.Sprintf(f, a...)}) }

func (p *arithP) next() aTok {
	t, n := p.scan()
	p.i = n
	p.last = t.k
	if t.k == 'o' && (t.s == ")") {
		p.last = 'n'
	}
	return t
}
func (p *arithP) peek() aTok {
	t, _ := p.scan()
	return t
}

func (p *arithP) scan() (aTok, int) {
	k := p.i
	for k < len(p.r) && (p.r[k] == ' ' || p.r[k] == '\t' || p.r[k] == '\n') {
		k++
	}
	if k >= len(p.r) {
		return aTok{}, k
	}
	c := p.r[k]
	sy := p.env.sy
	if isAtomRune(c) {
		switch sy.A.get(c).Kind {
		case "int", "iterm":
			l, _ := sy.atomLin(c)
			if k+1 < len(p.r) && isNameChar(p.r[k+1]) {
				p.err("value too great for base or invalid number %q", sy.A.show(string(p.r[k:k+2])))
			}
			return aTok{'n', string(c), l}, k + 1
		}
	}
	if c >= '0' && c <= '9' {
		j := k
		for j < len(p.r) && (isNameChar(p.r[j]) || p.r[j] == '#' && p.env.bash) {
			j++
		}
		s := string(p.r[k:j])
		base := 10
		if strings.HasPrefix(s, "0x") || strings.HasPrefix(s, "0X") {
			base = 16
			s = s[2:]
		} else if len(s) > 1 && s[0] == '0' {
			base = 8
		}
		v, err := strconv.ParseInt(s, base, 64)
		if err != nil && p.env.bash {
			var u uint64 // wraps around
			u, err = strconv.ParseUint(s, base, 64)
			v = int64(u)
		}
		if err != nil {
			p.err("invalid number %q", sy.A.show(s))
		}
		return aTok{'n', s, lc(sy.wrap(v))}, j
	}
	if isNameStart(c) {
		j := k
		for j < len(p.r) && isNameChar(p.r[j]) {
			j++
		}
		return aTok{k: 'v', s: string(p.r[k:j])}, j
	}
	ops := bashOps
	if !p.env.bash {
		ops = cmdOps
	}
	for _, o := range ops {
		if strings.HasPrefix(string(p.r[k:min(len(p.r), k+3)]), o) {
			if o == "++" || o == "--" {
				// bash: only next to a variable, otherwise two signs
				if p.last != 'v' {
					j := k + 2
					for j < len(p.r) && p.r[j] == ' ' {
						j++
					}
					if j >= len(p.r) || !isNameStart(p.r[j]) || p.isNum(p.r[j]) {
						return aTok{k: 'o', s: o[:1]}, k + 1
					}
				}
			}
			return aTok{k: 'o', s: o}, k + len(o)
		}
	}
	p.err("syntax error: operand expected (error token is %q)", sy.A.show(string(p.r[k:])))
	return aTok{}, k
}

func (p *arithP) isNum(c rune) bool {
	if !isAtomRune(c) {
		return false
	}
	k := p.env.sy.A.get(c).Kind
	return k == "int" || k == "iterm"
}

func (p *arithP) isOp(o string) bool {
	t := p.peek()
	return t.k == 'o' && t.s == o
}

func (p *arithP) comma() Lin {
	v := p.assign()
	for p.isOp(",") {
		p.next()
		v = p.assign()
	}
	return v
}

func (p *arithP) varRef() (string, *Lin) {
	t := p.next()
	if p.env.bash && p.i < len(p.r) && p.r[p.i] == '[' {
		d, k := 0, p.i
		for ; k < len(p.r); k++ {
			if p.r[k] == '[' {
				d++
			}
			if p.r[k] == ']' {
				d--
				if d == 0 {
					break
				}
			}
		}
		if k >= len(p.r) {
			p.err("bad array subscript")
		}
		l, e := p.env.eval(string(p.r[p.i+1 : k]))
		if e != nil {
			p.err("%v", e)
		}
		p.i = k + 1
		return t.s, &l
	}
	return t.s, nil
}

func (p *arithP) load(n string, idx *Lin) Lin {
	v := p.env.get(n, idx)
	if v == "" {
		return lc(0)
	}
	if l, ok := p.env.sy.parseInt(v); ok {
		return l
	}
	l, e := p.env.eval(v)
	if e != nil {
		p.err("%v", e)
	}
	return l
}

func (p *arithP) store(n string, idx *Lin, v Lin) {
	if p.noev == 0 {
		p.env.set(n, idx, p.env.sy.text(v))
	}
}

func (p *arithP) assign() Lin {
	if p.peek().k == 'v' {
		save, last := p.i, p.last
		n, idx := p.varRef()
		t := p.peek()
		if t.k == 'o' {
			if t.s == "=" {
				p.next()
				v := p.assign()
				p.store(n, idx, v)
				return v
			}
			if len(t.s) >= 2 && strings.HasSuffix(t.s, "=") && !strings.Contains("== != <= >=", t.s) {
				p.next()
				old := p.load(n, idx)
				v := p.binop(t.s[:len(t.s)-1], old, p.assign())
				p.store(n, idx, v)
				return v
			}
		}
		p.i, p.last = save, last
	}
	return p.ternary()
}

func (p *arithP) truth(l Lin) bool { return p.env.sy.cmp(l, lc(0)) != 0 }

func (p *arithP) ternary() Lin {
	c := p.binary(0)
	if !p.isOp("?") {
		return c
	}
	p.next()
	t := p.truth(c)
	if !t {
		p.noev++
	}
	a := p.assign()
	if !t {
		p.noev--
	}
	if !p.isOp(":") {
		p.err("`:' expected for conditional expression")
	}
	p.next()
	if t {
		p.noev++
	}
	b := p.ternary()
	if t {
		p.noev--
		return a
	}
	return b
}

var bashPrec = [][]string{{"||"}, {"&&"}, {"|"}, {"^"}, {"&"}, {"==", "!="}, {"<", ">", "<=", ">="}, {"<<", ">>"}, {"+", "-"}, {"*", "/", "%"}}

func (p *arithP) binary(lv int) Lin {
	if lv == len(bashPrec) {
		return p.power()
	}
	a := p.binary(lv + 1)
	for {
		t := p.peek()
		ok := false
		if t.k == 'o' {
			for _, o := range bashPrec[lv] {
				ok = ok || t.s == o
			}
		}
		if !ok {
			return a
		}
		p.next()
		if t.s == "||" || t.s == "&&" {
			ta := p.truth(a)
			skip := ta == (t.s == "||")
			if skip {
				p.noev++
			}
			b := p.binary(lv + 1)
			if skip {
				p.noev--
				a = b01l(ta)
			} else {
				a = b01l(p.truth(b))
			}
			continue
		}
		a = p.binop(t.s, a, p.binary(lv+1))
	}
}

func b01l(b bool) Lin {
	if b {
		return lc(1)
	}
	return lc(0)
}

func (p *arithP) binop(op string, a, b Lin) Lin {
	sy := p.env.sy
	switch op {
	case "+", "-", "*", "/", "%":
		l, ok := sy.arith(op, a, b)
		if !ok {
			if p.noev > 0 {
				return lc(0)
			}
			p.err("division by 0")
		}
		return l
	case "==":
		return b01l(sy.cmp(a, b) == 0)
	case "!=":
		return b01l(sy.cmp(a, b) != 0)
	case "<":
		return b01l(sy.cmp(a, b) < 0)
	case ">":
		return b01l(sy.cmp(a, b) > 0)
	case "<=":
		return b01l(sy.cmp(a, b) <= 0)
	case ">=":
		return b01l(sy.cmp(a, b) >= 0)
	}
	if a.isConst() && b.isConst() {
		switch op {
		case "|":
			return lc(a.c | b.c)
		case "^":
			return lc(a.c ^ b.c)
		case "&":
			return lc(a.c & b.c)
		case "<<":
			if p.env.bash {
				return lc(a.c << uint(b.c&63))
			}
		case ">>":
			if p.env.bash {
				return lc(a.c >> uint(b.c&63))
			}
		}
	}
	return lbase("(" + a.key() + " " + op + " " + b.key() + ")")
}

func (p *arithP) power() Lin {
	a := p.unary()
	if p.env.bash && p.isOp("**") {
		p.next()
		b := p.power()
		if b.isConst() && b.c >= 0 && b.c < 64 {
			r := lc(1)
			for k := int64(0); k < b.c; k++ {
				r, _ = p.env.sy.arith("*", r, a)
			}
			return r
		}
		return lbase("(" + a.key() + " ** " + b.key() + ")")
	}
	return a
}

func (p *arithP) unary() Lin {
	t := p.peek()
	if t.k == 'o' {
		switch t.s {
		case "!":
			p.next()
			return b01l(!p.truth(p.unary()))
		case "-":
			p.next()
			l, _ := p.env.sy.arith("-", lc(0), p.unary())
			return l
		case "+":
			p.next()
			return p.unary()
		case "~":
			p.next()
			l, _ := p.env.sy.arith("-", lc(-1), p.unary())
			return l
		case "++", "--":
			p.next()
			if p.peek().k != 'v' {
				p.err("syntax error: operand expected")
			}
			n, idx := p.varRef()
			l, _ := p.env.sy.arith(t.s[:1], p.load(n, idx), lc(1))
			p.store(n, idx, l)
			return l
		}
	}
	switch t.k {
	case 'n':
		p.next()
		return t.l
	case 'v':
		n, idx := p.varRef()
		v := p.load(n, idx)
		if p.env.bash && (p.isOp("++") || p.isOp("--")) {
			o := p.next()
			l, _ := p.env.sy.arith(o.s[:1], v, lc(1))
			p.store(n, idx, l)
		}
		return v
	case 'o':
		if t.s == "(" {
			p.next()
			v := p.comma()
			if !p.isOp(")") {
				p.err("missing `)'")
			}
			p.next()
			return v
		}
	}
	p.err("syntax error: operand expected (error token is %q)", p.env.sy.A.show(string(p.r[min(p.i, len(p.r)):])))
	return Lin{}
}
