package main

import (
	"fmt"
	"go/token"
	"go/types"
	"strings"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

func (in *Interp) asInt(v Value) int {
	switch v := v.(type) {
	case nil:
		return 0
	case int64:
		return int(v)
	case *SInt:
		if v.dom != nil && len(v.dom.set) == 1 {
			for k := range v.dom.set {
				return int(k + v.Add)
			}
		}
	}
	in.undecided("integer value %s needed", showVal(v))
	return 0
}

func showVal(v Value) string {
	switch v := v.(type) {
	case *SInt:
		return fmt.Sprintf("<%s%+d>", v.T, v.Add)
	case *SBool:
		return "<" + v.key + ">"
	case Str:
		return fmt.Sprintf("%q", v.flat())
	}
	return fmt.Sprintf("%T %v", v, v)
}

func (in *Interp) index(v Value, n int) int {
	switch x := v.(type) {
	case int64:
		if x < 0 || x >= int64(n) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", x, n))
		}
		return int(x)
	}
	in.undecided("symbolic index %s", showVal(v))
	return 0
}

func wrapInt(v int64, t types.Type) int64 {
	b, ok := t.Underlying().(*types.Basic)
	if !ok {
		return v
	}
	switch b.Kind() {
	case types.Int8:
		return int64(int8(v))
	case types.Int16:
		return int64(int16(v))
	case types.Int32:
		return int64(int32(v))
	case types.Uint8:
		return int64(uint8(v))
	case types.Uint16:
		return int64(uint16(v))
	case types.Uint32:
		return int64(uint32(v))
	}
	return v
}

func isUnsigned(t types.Type) bool {
	b, ok := t.Underlying().(*types.Basic)
	return ok && b.Info()&types.IsUnsigned != 0
}

func (in *Interp) unop(fr *frame, x *ssa.UnOp, v Value) Value {
	switch x.Op {
	case token.MUL:
		p := in.deref(v)
		return copyVal(*p)
	case token.NOT:
		switch b := v.(type) {
		case bool:
			return !b
		case *SBool:
			return &SBool{key: b.key, neg: !b.neg}
		}
	case token.SUB:
		switch b := v.(type) {
		case int64:
			return wrapInt(-b, x.X.Type())
		case float64:
			return -b
		case *SInt:
			return in.sterm("neg("+in.termKey(b)+")", nil)
		}
	case token.XOR:
		if b, ok := v.(int64); ok {
			return wrapInt(^b, x.X.Type())
		}
	}
	in.undecided("unary %s on %s", x.Op, showVal(v))
	return nil
}

func (in *Interp) termKey(v Value) string {
	switch v := v.(type) {
	case int64:
		return fmt.Sprint(v)
	case *SInt:
		if v.Add == 0 {
			return v.T
		}
		return fmt.Sprintf("%s%+d", v.T, v.Add)
	}
	return showVal(v)
}

func (in *Interp) sterm(t string, _ any) *SInt { return &SInt{T: t} }

// domCompare decides a comparison on a finite-set value, splitting the set.
func (in *Interp) domCompare(s *SInt, pred func(v int64) bool, what string) bool {
	d := s.dom
	var yes, no []int64
	for v := range d.set {
		if pred(v + s.Add) {
			yes = append(yes, v)
		} else {
			no = append(no, v)
		}
	}
	if len(no) == 0 {
		return true
	}
	if len(yes) == 0 {
		return false
	}
	if in.limit > 0 && d.depth >= in.limit {
		panic(abort{kind: "bound", msg: "⊤ token beyond the bound"})
	}
	r := in.choose(fmt.Sprintf("top%d:%s", d.id, what), 2) == 0
	if r {
		for _, v := range no {
			delete(d.set, v)
		}
	} else {
		for _, v := range yes {
			delete(d.set, v)
		}
	}
	return r
}

func cmpInt(op token.Token, a, b int64, uns bool) bool {
	if uns {
		x, y := uint64(a), uint64(b)
		switch op {
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	}
	switch op {
	case token.EQL:
		return a == b
	case token.NEQ:
		return a != b
	case token.LSS:
		return a < b
	case token.LEQ:
		return a <= b
	case token.GTR:
		return a > b
	case token.GEQ:
		return a >= b
	}
	panic("cmpInt")
}

func swapOp(op token.Token) token.Token {
	switch op {
	case token.LSS:
		return token.GTR
	case token.LEQ:
		return token.GEQ
	case token.GTR:
		return token.LSS
	case token.GEQ:
		return token.LEQ
	}
	return op
}

func (in *Interp) symCompare(op token.Token, a, b Value, uns bool) Value {
	sa, aok := a.(*SInt)
	sb, bok := b.(*SInt)
	if aok && bok && sa.dom != nil && sb.dom != nil {
		if sa.dom == sb.dom {
			return cmpInt(op, sa.Add, sb.Add, false)
		}
		// enumerate the smaller one
		if len(sb.dom.set) > len(sa.dom.set) {
			sa, sb, op = sb, sa, swapOp(op)
		}
		for len(sb.dom.set) > 1 {
			var m int64
			for k := range sb.dom.set {
				if k > m {
					m = k
				}
			}
			in.domCompare(sb, func(v int64) bool { return v-sb.Add == m }, fmt.Sprintf("=%d", m))
		}
		for k := range sb.dom.set {
			return in.domCompare(sa, func(v int64) bool { return cmpInt(op, v, k+sb.Add, uns) }, fmt.Sprintf("%s%d", op, k))
		}
	}
	if aok && sa.dom != nil {
		if c, ok := b.(int64); ok {
			return in.domCompare(sa, func(v int64) bool { return cmpInt(op, v, c, uns) }, fmt.Sprintf("%s%d", op, c))
		}
	}
	if bok && sb.dom != nil {
		if c, ok := a.(int64); ok {
			return in.domCompare(sb, func(v int64) bool { return cmpInt(op, c, v, uns) }, fmt.Sprintf("%s%d", swapOp(op), c))
		}
	}
	norm := func(v Value) (string, int64) {
		switch v := v.(type) {
		case int64:
			return "", v
		case *SInt:
			return v.T, v.Add
		}
		in.undecided("compare %s", showVal(v))
		return "", 0
	}
	ta, ca := norm(a)
	tb, cb := norm(b)
	if ta == tb {
		return cmpInt(op, ca, cb, false)
	}
	// lower bounds
	lower := func(v Value, t string, c int64, o string, oc int64, op token.Token) (bool, bool) {
		// v = t + c versus constant oc (o=="")
		s, ok := v.(*SInt)
		if !ok || o != "" || !s.has {
			return false, false
		}
		m := s.lo + c
		switch op {
		case token.GTR:
			if m > oc {
				return true, true
			}
		case token.GEQ:
			if m >= oc {
				return true, true
			}
		case token.LSS:
			if m >= oc {
				return false, true
			}
		case token.LEQ:
			if m > oc {
				return false, true
			}
		case token.EQL:
			if m > oc {
				return false, true
			}
		case token.NEQ:
			if m > oc {
				return true, true
			}
		}
		return false, false
	}
	if r, ok := lower(a, ta, ca, tb, cb, op); ok {
		return r
	}
	if r, ok := lower(b, tb, cb, ta, ca, swapOp(op)); ok {
		return r
	}
	k := func(t string, c int64) string { return fmt.Sprintf("%s%+d", t, c) }
	lt := func(t1 string, c1 int64, t2 string, c2 int64) string { return "lt:" + k(t1, c1) + "|" + k(t2, c2) }
	switch op {
	case token.EQL, token.NEQ:
		x, y := k(ta, ca), k(tb, cb)
		if x > y {
			x, y = y, x
		}
		return &SBool{key: "eq:" + x + "|" + y, neg: op == token.NEQ}
	case token.LSS:
		return &SBool{key: lt(ta, ca, tb, cb)}
	case token.GTR:
		return &SBool{key: lt(tb, cb, ta, ca)}
	case token.LEQ:
		return &SBool{key: lt(tb, cb, ta, ca), neg: true}
	case token.GEQ:
		return &SBool{key: lt(ta, ca, tb, cb), neg: true}
	}
	in.undecided("compare")
	return nil
}

func (in *Interp) binop(op token.Token, t types.Type, a, b Value) Value {
	switch op {
	case token.EQL:
		return in.equal(a, b)
	case token.NEQ:
		switch r := in.equal(a, b).(type) {
		case bool:
			return !r
		case *SBool:
			return &SBool{key: r.key, neg: !r.neg}
		}
	}
	switch x := a.(type) {
	case int64:
		y, ok := b.(int64)
		if !ok {
			if _, ok := b.(*SInt); ok {
				return in.symArith(op, t, a, b)
			}
			break
		}
		switch op {
		case token.ADD:
			return wrapInt(x+y, t)
		case token.SUB:
			return wrapInt(x-y, t)
		case token.MUL:
			return wrapInt(x*y, t)
		case token.QUO:
			if y == 0 {
				in.rtPanic("integer divide by zero")
			}
			if isUnsigned(t) {
				return wrapInt(int64(uint64(x)/uint64(y)), t)
			}
			return wrapInt(x/y, t)
		case token.REM:
			if y == 0 {
				in.rtPanic("integer divide by zero")
			}
			if isUnsigned(t) {
				return wrapInt(int64(uint64(x)%uint64(y)), t)
			}
			return wrapInt(x%y, t)
		case token.AND:
			return x & y
		case token.OR:
			return x | y
		case token.XOR:
			return wrapInt(x^y, t)
		case token.AND_NOT:
			return x &^ y
		case token.SHL:
			if y < 0 {
				in.rtPanic("negative shift amount")
			}
			if y > 63 {
				return int64(0)
			}
			return wrapInt(x<<uint(y), t)
		case token.SHR:
			if y < 0 {
				in.rtPanic("negative shift amount")
			}
			if isUnsigned(t) {
				if y > 63 {
					return int64(0)
				}
				return int64(uint64(x) >> uint(y))
			}
			if y > 63 {
				y = 63
			}
			return x >> uint(y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			return cmpInt(op, x, y, isUnsigned(t))
		}
	case *SInt:
		return in.symArith(op, t, a, b)
	case float64:
		y, ok := b.(float64)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return x + y
		case token.SUB:
			return x - y
		case token.MUL:
			return x * y
		case token.QUO:
			return x / y
		case token.LSS:
			return x < y
		case token.LEQ:
			return x <= y
		case token.GTR:
			return x > y
		case token.GEQ:
			return x >= y
		}
	case Str:
		y, ok := b.(Str)
		if !ok {
			break
		}
		switch op {
		case token.ADD:
			return cat(x, y)
		case token.LSS, token.LEQ, token.GTR, token.GEQ:
			xl, ok1 := x.lit()
			yl, ok2 := y.lit()
			if ok1 && ok2 || xl == yl {
				c := strings.Compare(xl, yl)
				return cmpInt(op, int64(c), 0, false)
			}
			switch op {
			case token.LSS:
				return &SBool{key: "slt:" + xl + "|" + yl}
			case token.GTR:
				return &SBool{key: "slt:" + yl + "|" + xl}
			case token.LEQ:
				return &SBool{key: "slt:" + yl + "|" + xl, neg: true}
			case token.GEQ:
				return &SBool{key: "slt:" + xl + "|" + yl, neg: true}
			}
		}
	case bool, *SBool:
		switch op {
		case token.AND:
			return in.truth(a) && in.truth(b)
		case token.OR:
			return in.truth(a) || in.truth(b)
		}
	}
	in.undecided("binary %s on %s, %s", op, showVal(a), showVal(b))
	return nil
}

func (in *Interp) symArith(op token.Token, t types.Type, a, b Value) Value {
	switch op {
	case token.LSS, token.LEQ, token.GTR, token.GEQ, token.EQL, token.NEQ:
		return in.symCompare(op, a, b, isUnsigned(t))
	}
	sa, aok := a.(*SInt)
	sb, bok := b.(*SInt)
	cp := func(s *SInt, d int64) Value {
		n := *s
		n.Add += d
		return &n
	}
	switch op {
	case token.ADD:
		if c, ok := b.(int64); ok && aok {
			return cp(sa, c)
		}
		if c, ok := a.(int64); ok && bok {
			return cp(sb, c)
		}
	case token.SUB:
		if c, ok := b.(int64); ok && aok {
			return cp(sa, -c)
		}
		if aok && bok && sa.T == sb.T {
			return sa.Add - sb.Add
		}
	}
	// collapse singleton domains
	if aok && sa.dom != nil && len(sa.dom.set) == 1 {
		return in.binop(op, t, int64(in.asInt(sa)), b)
	}
	if bok && sb.dom != nil && len(sb.dom.set) == 1 {
		return in.binop(op, t, a, int64(in.asInt(sb)))
	}
	return in.sterm(fmt.Sprintf("(%s %s %s)", in.termKey(a), op, in.termKey(b)), nil)
}

// equal returns bool or *SBool.
func (in *Interp) equal(a, b Value) Value {
	switch x := a.(type) {
	case bool:
		switch y := b.(type) {
		case bool:
			return x == y
		case *SBool:
			return &SBool{key: y.key, neg: y.neg != !x}
		}
	case *SBool:
		switch y := b.(type) {
		case bool:
			return &SBool{key: x.key, neg: x.neg != !y}
		case *SBool:
			return in.truth(x) == in.truth(y)
		}
	case int64:
		switch y := b.(type) {
		case int64:
			return x == y
		case *SInt:
			return in.symCompare(token.EQL, a, b, false)
		}
	case *SInt:
		return in.symCompare(token.EQL, a, b, false)
	case float64:
		if y, ok := b.(float64); ok {
			return x == y
		}
	case Str:
		if y, ok := b.(Str); ok {
			return x.flat() == y.flat() // distinct atoms are in generic position
		}
	case *Value:
		if y, ok := b.(*Value); ok {
			return x == y
		}
	case Struct:
		if y, ok := b.(Struct); ok && len(x) == len(y) {
			for i := range x {
				if !in.truth(in.equal(x[i], y[i])) {
					return false
				}
			}
			return true
		}
	case Array:
		if y, ok := b.(Array); ok && len(x) == len(y) {
			for i := range x {
				if !in.truth(in.equal(x[i], y[i])) {
					return false
				}
			}
			return true
		}
	case Iface:
		y, ok := b.(Iface)
		if !ok {
			break
		}
		if x.t == nil || y.t == nil {
			return x.t == nil && y.t == nil
		}
		if !types.Identical(x.t, y.t) {
			return false
		}
		switch x.t.Underlying().(type) {
		case *types.Slice, *types.Map, *types.Signature:
			in.rtPanic("comparing uncomparable type " + x.t.String())
		}
		return in.equal(x.v, y.v)
	case Slice:
		if y, ok := b.(Slice); ok {
			return x == nil && y == nil || (x != nil && y != nil && false)
		}
	case *Map:
		if y, ok := b.(*Map); ok {
			return x == y
		}
	case *ssa.Function:
		if y, ok := b.(*ssa.Function); ok {
			return x == y
		}
		return false
	case *Closure:
		if y, ok := b.(*ssa.Function); ok {
			return y == nil && x == nil
		}
		return false
	case *Prim:
		return false
	case *Opaque:
		if y, ok := b.(*Opaque); ok {
			return x == y
		}
		if y, ok := b.(*Value); ok {
			return y == nil && x == nil
		}
		return false
	}
	in.undecided("equality of %s and %s", showVal(a), showVal(b))
	return nil
}

func (in *Interp) strIndex(s Str, i Value) Value {
	f := s.flat()
	switch x := i.(type) {
	case int64:
		first := len(f)
		if hasAtom(f) && !in.rawText(f) {
			for k := 0; k < len(f); k++ {
				if f[k] == 0xF4 {
					first = k
					break
				}
			}
			if x == int64(first) {
				// first byte of an opaque text: a byte in generic position of its class
				r, _ := utf8.DecodeRuneInString(f[first:])
				switch in.atoms.get(r).Kind {
				case "int":
					return int64('7')
				case "str", "id", "sterm", "char":
					return int64('z')
				}
			}
			if x >= int64(first) {
				in.undecided("byte %d of template %q", x, in.atoms.show(f))
			}
		}
		if x < 0 || x >= int64(len(f)) {
			in.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", x, len(f)))
		}
		return int64(f[x])
	case *SInt:
		if x.text == f && x.Add < 0 && int(-x.Add) <= len(f) {
			b := f[len(f)+int(x.Add)]
			if b < 0x80 && !strings.ContainsFunc(f[len(f)+int(x.Add):], isAtomRune) {
				return int64(b)
			}
			// last byte belongs to an atom: a generic byte
			return int64('z')
		}
	}
	in.undecided("index %s of template %q", showVal(i), in.atoms.show(f))
	return nil
}

// rawText returns if the opaque parts of a text are read byte by byte: the compiler is analysed once more this way if
// it needs the length or the bytes of an opaque text. Bytes which are copied one by one form the opaque text again.
func (in *Interp) rawText(f string) bool {
	if !in.raw {
		return false
	}
	for _, r := range f {
		if isAtomRune(r) {
			switch in.atoms.get(r).Kind {
			case "str", "id", "sterm", "char", "int":
			default:
				return false
			}
		}
	}
	return true
}

func (in *Interp) strLen(s Str) Value {
	f := s.flat()
	if !hasAtom(f) || in.rawText(f) {
		return int64(len(f))
	}
	n := int64(0)
	for _, r := range f {
		if isAtomRune(r) {
			n++
		} else {
			n += int64(utf8.RuneLen(r))
		}
	}
	return &SInt{T: "len:" + f, text: f, has: true, lo: n}
}

func (in *Interp) slice(x, lo, hi, max Value) Value {
	switch b := x.(type) {
	case Str:
		f := b.flat()
		bound := func(v Value, def int) int {
			switch v := v.(type) {
			case nil:
				return def
			case int64:
				if !hasAtom(f) || in.rawText(f) {
					if v < 0 || int(v) > len(f) {
						in.rtPanic(fmt.Sprintf("slice bounds out of range [:%d] with length %d", v, len(f)))
					}
					return int(v)
				}
				first := strings.IndexFunc(f, isAtomRune)
				if int(v) <= first {
					return int(v)
				}
				// a hexadecimal digest: every char is one position
				pos := 0
				for i, r := range f {
					if int64(pos) == v {
						return i
					}
					if isAtomRune(r) {
						if a := in.atoms.get(r); a.Kind != "hexchar" {
							in.undecided("slice bound %d of template %q", v, in.atoms.show(f))
						}
					}
					pos++
				}
				if int64(pos) == v {
					return len(f)
				}
				in.undecided("slice bound %d of template %q", v, in.atoms.show(f))
			case *SInt:
				if v.text != "" && strings.HasPrefix(f, v.text) && v.Add <= 0 && int(-v.Add) <= len(v.text) {
					p := len(v.text) + int(v.Add)
					if !hasAtom(f[p:len(v.text)]) {
						return p
					}
				}
				if v.text != "" && strings.HasPrefix(f, v.text) && v.Add > 0 && len(v.text)+int(v.Add) <= len(f) && !hasAtom(f[len(v.text):len(v.text)+int(v.Add)]) {
					return len(v.text) + int(v.Add)
				}
				in.undecided("slice bound %s of template %q", showVal(v), in.atoms.show(f))
			default:
				in.undecided("slice bound %T", v)
			}
			return 0
		}
		l, h := bound(lo, 0), bound(hi, len(f))
		if l > h {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d]", l, h))
		}
		return b.sub(l, h)
	case Slice:
		l, h := 0, len(b)
		if lo != nil {
			l = in.asInt(lo)
		}
		if hi != nil {
			h = in.asInt(hi)
		}
		m := cap(b)
		if max != nil {
			m = in.asInt(max)
		}
		if l < 0 || h > cap(b) || l > h || m > cap(b) || h > m {
			in.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with capacity %d", l, h, cap(b)))
		}
		if b == nil {
			return b
		}
		return b[l:h:m]
	case *Value:
		p := in.deref(b)
		a, ok := (*p).(Array)
		if !ok {
			in.undecided("slice of %T", *p)
		}
		return in.slice(Slice(a), lo, hi, max)
	}
	in.undecided("slice of %T", x)
	return nil
}

func (in *Interp) mapKey(m *Map, key Value) (string, Value) {
	if k, ok := keyOf(key); ok {
		return k, key
	}
	if s, ok := key.(*SInt); ok && s.dom != nil {
		for i, kv := range m.keys {
			if !m.live[i] {
				continue
			}
			if in.truth(in.equal(s, kv)) {
				k, _ := keyOf(kv)
				return k, kv
			}
		}
		if len(s.dom.set) == 1 {
			v := int64(in.asInt(s))
			k, _ := keyOf(v)
			return k, v
		}
		return fmt.Sprintf("dom%d", s.dom.id), key
	}
	in.undecided("map key %s", showVal(key))
	return "", nil
}

func (in *Interp) lookup(x *ssa.Lookup, c, key Value) Value {
	switch b := c.(type) {
	case Str:
		return in.strIndex(b, key)
	case *Map:
		var v Value
		ok := false
		if b != nil {
			k, _ := in.mapKey(b, key)
			v, ok = b.get(k)
		}
		if !ok {
			v = zero(x.X.Type().Underlying().(*types.Map).Elem())
		}
		v = copyVal(v)
		if x.CommaOk {
			return Tuple{v, ok}
		}
		return v
	}
	in.undecided("lookup in %T", c)
	return nil
}

type rangeIter struct {
	m    *Map
	s    string
	pos  int
	isS  bool
	done bool

	order []int // nil: insertion order
}

func (in *Interp) rangeOver(v Value) Value {
	switch b := v.(type) {
	case Str:
		return &rangeIter{s: b.flat(), isS: true}
	case *Map:
		if b == nil {
			b = newMap()
		}
		return &rangeIter{m: b, order: in.mapOrder(b)}
	}
	in.undecided("range over %T", v)
	return nil
}

func (in *Interp) next(v Value, x *ssa.Next) Value {
	it := v.(*rangeIter)
	if it.isS {
		if it.pos >= len(it.s) {
			return Tuple{false, int64(0), int64(0)}
		}
		r, n := utf8.DecodeRuneInString(it.s[it.pos:])
		p := it.pos
		it.pos += n
		return Tuple{true, int64(p), int64(r)}
	}
	for it.pos < len(it.m.keys) {
		i := it.pos
		if it.order != nil {
			if i >= len(it.order) {
				break
			}
			i = it.order[i]
		}
		it.pos++
		if it.m.live[i] {
			return Tuple{true, it.m.keys[i], copyVal(it.m.vals[i])}
		}
	}
	t := x.Type().(*types.Tuple)
	z := func(i int) Value {
		if b, ok := t.At(i).Type().(*types.Basic); ok && b.Kind() == types.Invalid {
			return nil
		}
		return zero(t.At(i).Type())
	}
	return Tuple{false, z(1), z(2)}
}

func (in *Interp) typeAssert(x *ssa.TypeAssert, v Value) Value {
	i, ok := v.(Iface)
	if !ok {
		in.undecided("type assertion on %T", v)
	}
	var r Value
	good := false
	if i.t != nil {
		if it, isI := x.AssertedType.Underlying().(*types.Interface); isI {
			good = types.Implements(i.t, it)
			r = i
		} else {
			good = types.Identical(i.t, x.AssertedType)
			r = i.v
		}
	}
	if !good {
		if !x.CommaOk {
			in.rtPanic(fmt.Sprintf("interface conversion: interface is %v, not %v", i.t, x.AssertedType))
		}
		return Tuple{zero(x.AssertedType), false}
	}
	r = copyVal(r)
	if x.CommaOk {
		return Tuple{r, true}
	}
	return r
}

func strToBytes(s string) Slice {
	r := make(Slice, len(s))
	for i := 0; i < len(s); i++ {
		r[i] = int64(s[i])
	}
	return r
}

func (in *Interp) bytesToStr(s Slice) string {
	b := make([]byte, len(s))
	for i, v := range s {
		b[i] = byte(in.asInt(v))
	}
	return string(b)
}

func (in *Interp) convert(to, from types.Type, v Value) Value {
	ut, uf := to.Underlying(), from.Underlying()
	switch t := ut.(type) {
	case *types.Slice:
		if s, ok := v.(Str); ok {
			f := s.flat()
			el := t.Elem().Underlying().(*types.Basic)
			if el.Kind() == types.Uint8 {
				return strToBytes(f)
			}
			var r Slice
			for _, c := range f {
				r = append(r, int64(c))
			}
			if r == nil {
				r = Slice{}
			}
			return r
		}
		return v
	case *types.Basic:
		switch {
		case t.Info()&types.IsString != 0:
			switch x := v.(type) {
			case Str:
				return x
			case Slice:
				el := uf.(*types.Slice).Elem().Underlying().(*types.Basic)
				if el.Kind() == types.Uint8 {
					return SO(in.bytesToStr(x), in.cur.pos)
				}
				var b strings.Builder
				for _, c := range x {
					b.WriteRune(rune(in.asInt(c)))
				}
				return SO(b.String(), in.cur.pos)
			case int64:
				return SO(string(rune(x)), in.cur.pos)
			}
		case t.Info()&types.IsInteger != 0:
			switch x := v.(type) {
			case int64:
				return wrapInt(x, to)
			case *SInt:
				return x
			case float64:
				return wrapInt(int64(x), to)
			}
		case t.Info()&types.IsFloat != 0:
			switch x := v.(type) {
			case int64:
				if isUnsigned(from) {
					return float64(uint64(x))
				}
				return float64(x)
			case float64:
				return x
			}
		case t.Kind() == types.UnsafePointer:
			return v
		}
	case *types.Pointer:
		return v
	}
	in.undecided("conversion %v -> %v of %s", from, to, showVal(v))
	return nil
}

func (in *Interp) builtin(fr *frame, b *ssa.Builtin, args []Value, c *ssa.CallCommon) Value {
	switch b.Name() {
	case "append":
		if len(args) == 1 {
			return args[0]
		}
		dst, ok := args[0].(Slice)
		if !ok {
			in.undecided("append to %T", args[0])
		}
		switch src := args[1].(type) {
		case Str:
			return append(dst, strToBytes(src.flat())...)
		case Slice:
			n := len(dst)
			r := append(dst, src...)
			for i := n; i < len(r); i++ {
				r[i] = copyVal(r[i])
			}
			return r
		}
		in.undecided("append of %T", args[1])
	case "copy":
		dst := args[0].(Slice)
		switch src := args[1].(type) {
		case Str:
			return int64(copy(dst, strToBytes(src.flat())))
		case Slice:
			tmp := make(Slice, len(src))
			for i := range src {
				tmp[i] = copyVal(src[i])
			}
			return int64(copy(dst, tmp))
		}
	case "len":
		switch x := args[0].(type) {
		case Str:
			return in.strLen(x)
		case Slice:
			return int64(len(x))
		case Array:
			return int64(len(x))
		case *Map:
			if x == nil {
				return int64(0)
			}
			return int64(x.n)
		case *Value:
			if a, ok := (*in.deref(x)).(Array); ok {
				return int64(len(a))
			}
		}
		in.undecided("len of %T", args[0])
	case "cap":
		switch x := args[0].(type) {
		case Slice:
			return int64(cap(x))
		case Array:
			return int64(len(x))
		}
	case "delete":
		m := args[0].(*Map)
		if m != nil {
			k, _ := in.mapKey(m, args[1])
			m.del(k)
		}
		return nil
	case "clear":
		switch x := args[0].(type) {
		case *Map:
			if x != nil {
				for i := range x.live {
					x.live[i] = false
				}
				x.idx = map[string]int{}
				x.n = 0
			}
			return nil
		case Slice:
			el := c.Args[0].Type().Underlying().(*types.Slice).Elem()
			for i := range x {
				x[i] = zero(el)
			}
			return nil
		}
	case "min", "max":
		r := args[0]
		for _, a := range args[1:] {
			op := token.LSS
			if b.Name() == "max" {
				op = token.GTR
			}
			if in.truth(in.binop(op, c.Args[0].Type(), a, r)) {
				r = a
			}
		}
		return r
	case "print", "println":
		return nil
	case "panic":
		panic(targetPanic{v: args[0], msg: in.describe(args[0]), stack: in.stack(8)})
	case "recover":
		if f := fr.caller; f != nil && f.panicking {
			f.panicking = false
			p, ok := f.panicVal.(targetPanic)
			f.panicVal = nil
			if ok {
				if i, isI := p.v.(Iface); isI {
					if i.t != nil {
						return i
					}
					return in.mkError(S(p.msg))
				}
				return p.v
			}
		}
		return Iface{}
	case "ssa:wrapnilchk":
		if p, ok := args[0].(*Value); ok && p == nil {
			in.rtPanic("value method called using nil pointer")
		}
		return args[0]
	case "ssa:deferstack":
		return &Opaque{name: "deferstack", v: fr}
	}
	in.undecided("builtin %s", b.Name())
	return nil
}

// mkError builds an error value (errors.errorString).
func (in *Interp) mkError(msg Str) Value {
	p := in.w.ByPath["errors"]
	t := p.Type("errorString")
	s := new(Value)
	*s = Struct{msg}
	return Iface{t: types.NewPointer(t.Type()), v: s}
}
