package main

import (
	"fmt"
	"math/bits"
	"sort"
	"strconv"
	"strings"
	"unicode/utf8"
)

// ---------------------------------------------------------------- linear integer terms

// Lin is c + sum(coef*base). Bases are opaque term names.
type Lin struct {
	c int64
	t map[string]int64
}

func lc(c int64) Lin { return Lin{c: c} }
func lbase(b string) Lin {
	return Lin{t: map[string]int64{b: 1}}
}
func (l Lin) isConst() bool { return len(l.t) == 0 }
func (l Lin) key() string {
	if l.isConst() {
		return strconv.FormatInt(l.c, 10)
	}
	var b strings.Builder
	for _, k := range sortedKeys(l.t) {
		fmt.Fprintf(&b, "%+d*%s", l.t[k], k)
	}
	if l.c != 0 {
		fmt.Fprintf(&b, "%+d", l.c)
	}
	return b.String()
}
func (l Lin) scale(k int64) Lin {
	if k == 0 {
		return lc(0)
	}
	r := Lin{c: l.c * k, t: map[string]int64{}}
	for b, v := range l.t {
		r.t[b] = v * k
	}
	return r
}
func (l Lin) add(m Lin) Lin {
	r := Lin{c: l.c + m.c, t: map[string]int64{}}
	for b, v := range l.t {
		r.t[b] = v
	}
	for b, v := range m.t {
		r.t[b] += v
		if r.t[b] == 0 {
			delete(r.t, b)
		}
	}
	return r
}
func (l Lin) sub(m Lin) Lin { return l.add(m.scale(-1)) }

// ---------------------------------------------------------------- shared decisions

// Oracle decides undetermined conditions consistently for the reference and the shell model.
type Oracle struct {
	prefix  []int
	choices []choice
	facts   map[string]int
	max     int
}

type oracleBound struct{ key string }

func newOracle(prefix []int, max int) *Oracle {
	return &Oracle{prefix: prefix, facts: map[string]int{}, max: max}
}

func (o *Oracle) choose(key string, n int) int {
	if v, ok := o.facts[key]; ok {
		return v
	}
	i := len(o.choices)
	if i >= o.max {
		panic(oracleBound{key})
	}
	c := 0
	if i < len(o.prefix) {
		c = o.prefix[i]
	}
	o.choices = append(o.choices, choice{key, n, c})
	o.facts[key] = c
	return c
}

// nextPrefix gives the next decision prefix in depth-first order, or nil,false.
func nextPrefix(ch []choice) ([]int, bool) {
	i := len(ch) - 1
	for i >= 0 && ch[i].c+1 >= ch[i].n {
		i--
	}
	if i < 0 {
		return nil, false
	}
	np := make([]int, i+1)
	for k := 0; k < i; k++ {
		np[k] = ch[k].c
	}
	np[i] = ch[i].c + 1
	return np, true
}

// Sym is the symbolic context shared by the reference evaluator and the shell models.
type Sym struct {
	A    *Atoms
	O    *Oracle
	lins map[rune]Lin
	Bits int // 64 (bash) or 32 (cmd)
	Ref  int // steps of the reference on this path
}

func newSym(a *Atoms, o *Oracle, bits int) *Sym {
	return &Sym{A: a, O: o, lins: map[rune]Lin{}, Bits: bits}
}

func (s *Sym) wrap(v int64) int64 {
	if s.Bits == 32 {
		return int64(int32(v))
	}
	return v
}

func (s *Sym) norm(l Lin) Lin {
	l.c = s.wrap(l.c)
	return l
}

// text renders an integer term as text.
func (s *Sym) text(l Lin) string {
	if l.isConst() {
		return strconv.FormatInt(l.c, 10)
	}
	if l.c == 0 && len(l.t) == 1 {
		for b, k := range l.t {
			if k == 1 && strings.HasPrefix(b, "int:") {
				return string(s.A.mk("int", b[4:]))
			}
		}
	}
	r := s.A.mk("iterm", l.key())
	s.lins[r] = l
	return string(r)
}

// parseInt reads text as a decimal integer; ok=false if it is not one.
func (s *Sym) parseInt(t string) (Lin, bool) {
	neg := false
	u := t
	if strings.HasPrefix(u, "-") {
		neg = true
		u = u[1:]
	} else if strings.HasPrefix(u, "+") {
		u = u[1:]
	}
	if u == "" {
		return Lin{}, false
	}
	if r, n := utf8.DecodeRuneInString(u); isAtomRune(r) && n == len(u) {
		l, ok := s.atomLin(r)
		if !ok {
			return Lin{}, false
		}
		if neg {
			l = l.scale(-1)
		}
		return l, true
	}
	for i := 0; i < len(u); i++ {
		if u[i] < '0' || u[i] > '9' {
			return Lin{}, false
		}
	}
	if neg {
		u = "-" + u
	}
	v, err := strconv.ParseInt(u, 10, 64)
	if err != nil {
		return Lin{}, false
	}
	return lc(s.wrap(v)), true
}

func (s *Sym) atomLin(r rune) (Lin, bool) {
	a := s.A.get(r)
	switch a.Kind {
	case "int":
		return lbase("int:" + a.Name), true
	case "iterm":
		if l, ok := s.lins[r]; ok {
			return l, true
		}
		return lbase(a.Name), true
	}
	return Lin{}, false
}

func (s *Sym) arith(op string, a, b Lin) (Lin, bool) {
	switch op {
	case "+":
		return s.norm(a.add(b)), true
	case "-":
		return s.norm(a.sub(b)), true
	case "*":
		if a.isConst() {
			return s.norm(b.scale(a.c)), true
		}
		if b.isConst() {
			return s.norm(a.scale(b.c)), true
		}
		x, y := a.key(), b.key()
		if x > y {
			x, y = y, x
		}
		return lbase("(" + x + " * " + y + ")"), true
	case "/", "%":
		if b.isConst() && b.c == 0 {
			return Lin{}, false
		}
		if a.isConst() && b.isConst() {
			if op == "/" {
				if b.c == -1 {
					return lc(s.wrap(-a.c)), true
				}
				return lc(a.c / b.c), true
			}
			if b.c == -1 {
				return lc(0), true
			}
			return lc(a.c % b.c), true
		}
		if op == "/" && b.isConst() && b.c == 1 {
			return a, true
		}
		return lbase("(" + a.key() + " " + op + " " + b.key() + ")"), true
	}
	return Lin{}, false
}

// lowerBound gives a bound for terms known to be non-negative (lengths).
func (s *Sym) nonNeg(l Lin) bool {
	if l.c < 0 {
		return false
	}
	for b, k := range l.t {
		if k < 0 || !strings.HasPrefix(b, "len(") {
			return false
		}
	}
	return true
}

// cmp gives the sign of a-b (-1,0,1), deciding it if necessary.
func (s *Sym) cmp(a, b Lin) int {
	d := a.sub(b)
	if d.isConst() {
		switch {
		case d.c < 0:
			return -1
		case d.c > 0:
			return 1
		}
		return 0
	}
	if s.nonNeg(d) && d.c > 0 {
		return 1
	}
	if n := d.scale(-1); s.nonNeg(n) && n.c > 0 {
		return -1
	}
	neg := false
	ks := sortedKeys(d.t)
	if d.t[ks[0]] < 0 {
		neg = true
		d = d.scale(-1)
	}
	// bounds from earlier decisions on the same linear part
	v := s.decideSign(d)
	if neg {
		return -v
	}
	return v
}

func (s *Sym) decideSign(d Lin) int {
	base := d
	base.c = 0
	part := base.key()
	// known: sign(base + c') for several c'
	var cs []int64
	for k := range s.O.facts {
		if strings.HasPrefix(k, "sign:"+part+"@") {
			c, _ := strconv.ParseInt(k[len("sign:"+part+"@"):], 10, 64)
			cs = append(cs, c)
		}
	}
	sort.Slice(cs, func(i, j int) bool { return cs[i] < cs[j] })
	lo, hi := int64(-1<<62), int64(1<<62) // bounds of base
	for _, c := range cs {
		switch s.O.facts[fmt.Sprintf("sign:%s@%d", part, c)] - 1 {
		case -1: // base + c < 0
			if -c-1 < hi {
				hi = -c - 1
			}
		case 0:
			lo, hi = -c, -c
		case 1:
			if -c+1 > lo {
				lo = -c + 1
			}
		}
	}
	if s.nonNeg(base) && lo < 0 {
		lo = 0
	}
	switch {
	case lo+d.c > 0:
		return 1
	case hi+d.c < 0:
		return -1
	case lo == hi && lo+d.c == 0:
		return 0
	}
	canNeg, canPos := lo+d.c < 0, hi+d.c > 0
	key := fmt.Sprintf("sign:%s@%d", part, d.c)
	if canNeg && canPos {
		return s.O.choose(key, 3) - 1
	}
	// only two outcomes
	c := s.O.choose("2"+key, 2)
	v := 0
	if c == 1 {
		if canNeg {
			v = -1
		} else {
			v = 1
		}
	}
	s.O.facts[key] = v + 1
	return v
}

// strEq decides equality of two templates.
func (s *Sym) strCmp(a, b string) int {
	if a == b {
		return 0
	}
	if !hasAtom(a) && !hasAtom(b) {
		return strings.Compare(a, b)
	}
	// numeric texts: equality of the numbers
	if la, ok := s.parseInt(a); ok {
		if lb, ok := s.parseInt(b); ok {
			if hasAtom(a) || hasAtom(b) {
				if s.cmp(la, lb) == 0 {
					return 0
				}
			}
		}
	}
	neg := false
	if a > b {
		a, b = b, a
		neg = true
	}
	v := s.O.choose("scmp:"+a+"\x00"+b, 3) - 1
	if neg {
		return -v
	}
	return v
}

// strEq decides equality only.
func (s *Sym) strEq(a, b string) bool {
	if a == b {
		return true
	}
	if !hasAtom(a) && !hasAtom(b) {
		return false
	}
	if la, ok := s.parseInt(a); ok {
		if lb, ok := s.parseInt(b); ok {
			return s.cmp(la, lb) == 0
		}
		if !hasAtom(b) {
			return false // a number is not this text
		}
	} else if _, ok := s.parseInt(b); ok && !hasAtom(a) {
		return false
	}
	// common prefix and suffix do not matter
	x, y := []rune(a), []rune(b)
	for len(x) > 0 && len(y) > 0 && x[0] == y[0] {
		x, y = x[1:], y[1:]
	}
	for len(x) > 0 && len(y) > 0 && x[len(x)-1] == y[len(y)-1] {
		x, y = x[:len(x)-1], y[:len(y)-1]
	}
	if len(x) == 0 && s.minLen(y) > 0 || len(y) == 0 && s.minLen(x) > 0 {
		return false
	}
	if len(x) > 0 && len(y) > 0 {
		if s.differ(x[0], y[0]) || s.differ(x[len(x)-1], y[len(y)-1]) {
			return false
		}
		if !hasAtom(string(x)) && s.minLen(y) > len(x) || !hasAtom(string(y)) && s.minLen(x) > len(y) {
			return false
		}
	}
	return s.strCmp(string(x), string(y)) == 0
}

// differ: the two leading (trailing) elements can never be equal.
func (s *Sym) differ(a, b rune) bool {
	if !isAtomRune(a) && !isAtomRune(b) {
		return a != b
	}
	if isAtomRune(a) && isAtomRune(b) {
		return a != b && s.A.get(a).Kind == "char" && s.A.get(b).Kind == "char"
	}
	if isAtomRune(b) {
		a, b = b, a
	}
	k := s.A.get(a).Kind
	return k == "char" || (k == "int" || k == "iterm") && (b < '0' || b > '9') && b != '-'
}

func (s *Sym) minLen(r []rune) int {
	n := 0
	for _, c := range r {
		if !isAtomRune(c) {
			n++
			continue
		}
		switch s.A.get(c).Kind {
		case "int", "iterm", "id", "hexchar", "char":
			n++
		}
	}
	return n
}

func (s *Sym) length(t string) Lin {
	r := lc(0)
	for _, c := range t {
		if isAtomRune(c) && s.A.get(c).Kind != "char" {
			r = r.add(lbase("len(" + s.A.get(c).Name + ")"))
		} else {
			r.c++
		}
	}
	return r
}

// chars: every element of the template is exactly one character.
func (s *Sym) chars(t string) bool {
	for _, c := range t {
		if isAtomRune(c) && s.A.get(c).Kind != "char" {
			return false
		}
	}
	return true
}

// substr gives the substring starting at off of n characters (bash semantics for in-range values).
func (s *Sym) substr(t string, off, n Lin) string {
	if s.chars(t) && off.isConst() && n.isConst() {
		r := []rune(t)
		o, l := off.c, n.c
		if o < 0 || o > int64(len(r)) || l < 0 {
			return ""
		}
		if o+l > int64(len(r)) {
			l = int64(len(r)) - o
		}
		return string(r[o : o+l])
	}
	if off.isConst() && off.c == 0 && n.sub(s.length(t)).isConst() && n.sub(s.length(t)).c == 0 {
		return t
	}
	if n.isConst() && n.c == 0 {
		return ""
	}
	return string(s.A.mk("sterm", fmt.Sprintf("sub(%s;%s;%s)", s.A.show(t), off.key(), n.key())))
}

var _ = bits.Len
