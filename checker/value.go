package main

import (
	"fmt"
	"go/token"
	"go/types"
	"regexp"
	"sort"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- values

// Value is an abstract value: bool, *SBool, int64, *SInt, float64, Str, *Value (pointer), Struct, Array,
// Tuple, Slice, *Map, Iface, *ssa.Function, *Closure, *ssa.Builtin, *Prim, *Opaque, rangeIter.
type Value any

type Struct []Value
type Array []Value
type Tuple []Value
type Slice []Value

type Iface struct {
	t types.Type
	v Value
}

type Closure struct {
	fn  *ssa.Function
	env []Value
}

// Prim is an intrinsic function value (bound native).
type Prim struct {
	name string
	f    func(in *Interp, args []Value) Value
}

// Opaque wraps values of unmodelled types.
type Opaque struct {
	name string
	v    any
}

func (o *Opaque) String() string { return "opaque:" + o.name }

// Map is a Go map with insertion-ordered entries.
type Map struct {
	keys []Value
	vals []Value
	idx  map[string]int
	live []bool
	n    int
}

func newMap() *Map { return &Map{idx: map[string]int{}} }

func (m *Map) get(k string) (Value, bool) {
	if m == nil {
		return nil, false
	}
	i, ok := m.idx[k]
	if !ok {
		return nil, false
	}
	return m.vals[i], true
}
func (m *Map) set(k string, key, v Value) {
	if i, ok := m.idx[k]; ok {
		m.vals[i] = v
		return
	}
	m.idx[k] = len(m.keys)
	m.keys = append(m.keys, key)
	m.vals = append(m.vals, v)
	m.live = append(m.live, true)
	m.n++
}
func (m *Map) del(k string) {
	if i, ok := m.idx[k]; ok {
		m.live[i] = false
		delete(m.idx, k)
		m.n--
	}
}

// SBool is an undetermined condition; key identifies the condition on the path.
type SBool struct {
	key string
	neg bool
}

// SInt is an undetermined integer: base term T plus a constant; dom (if any) is a finite set of
// possible values (token types of ⊤ tokens).
type SInt struct {
	T    string
	Add  int64
	lo   int64 // known lower bound of T (valid if hasLo)
	has  bool
	dom  *Dom
	text string // if T is the byte length of a template: its flattened text
}

// Dom is a finite set of values still possible on this path.
type Dom struct {
	id    int
	set   map[int64]bool
	depth int
}

func (d *Dom) size() int { return len(d.set) }

// ---------------------------------------------------------------- strings

// piece is a literal fragment (possibly containing atom runes) and the place that produced it.
type piece struct {
	s   string
	org token.Pos
}

// Str is a string template. Atoms are runes of the supplementary private use plane B.
type Str struct{ p []piece }

const atomBase = 0x100000
const atomMax = 0x10FFF0

func isAtomRune(r rune) bool { return r >= atomBase && r <= atomMax }

func hasAtom(s string) bool { return strings.IndexByte(s, 0xF4) >= 0 } // lead byte of U+100000..U+10FFFF

func S(s string) Str {
	if s == "" {
		return Str{}
	}
	return Str{[]piece{{s, token.NoPos}}}
}
func SO(s string, org token.Pos) Str {
	if s == "" {
		return Str{}
	}
	return Str{[]piece{{s, org}}}
}

func (s Str) flat() string {
	switch len(s.p) {
	case 0:
		return ""
	case 1:
		return s.p[0].s
	}
	var b strings.Builder
	for _, p := range s.p {
		b.WriteString(p.s)
	}
	return b.String()
}

// lit returns the concrete string if there is no atom in it.
func (s Str) lit() (string, bool) {
	f := s.flat()
	return f, !hasAtom(f)
}

func cat(a, b Str) Str {
	if len(a.p) == 0 {
		return b
	}
	if len(b.p) == 0 {
		return a
	}
	if len(a.p) > 0 && len(b.p) == 1 && a.p[len(a.p)-1].org == b.p[0].org {
		p := append([]piece(nil), a.p...)
		p[len(p)-1].s += b.p[0].s
		return Str{p}
	}
	p := make([]piece, 0, len(a.p)+len(b.p))
	p = append(p, a.p...)
	p = append(p, b.p...)
	return Str{p}
}

// sub returns the byte range [lo,hi) keeping origins.
func (s Str) sub(lo, hi int) Str {
	var r []piece
	off := 0
	for _, p := range s.p {
		a, b := lo-off, hi-off
		if a < 0 {
			a = 0
		}
		if b > len(p.s) {
			b = len(p.s)
		}
		if a < b {
			r = append(r, piece{p.s[a:b], p.org})
		}
		off += len(p.s)
	}
	return Str{r}
}

// Atom describes an opaque piece of text.
type Atom struct {
	Kind string // "id", "int", "str", "hex", "len", "other"
	Name string
	Term *SInt
}

// Atoms is the atom table of one schema (shared by all of its paths).
type Atoms struct {
	list  []Atom
	byKey map[string]rune
}

func newAtoms() *Atoms { return &Atoms{byKey: map[string]rune{}} }
func (a *Atoms) mk(kind, name string) rune {
	k := kind + "\x00" + name
	if r, ok := a.byKey[k]; ok {
		return r
	}
	r := rune(atomBase + len(a.list))
	a.list = append(a.list, Atom{Kind: kind, Name: name})
	a.byKey[k] = r
	return r
}
func (a *Atoms) get(r rune) Atom {
	i := int(r) - atomBase
	if i < 0 || i >= len(a.list) {
		return Atom{Kind: "other", Name: fmt.Sprintf("?%x", r)}
	}
	return a.list[i]
}

// show renders a template for humans.
func (a *Atoms) show(s string) string {
	if !hasAtom(s) {
		return s
	}
	var b strings.Builder
	for _, r := range s {
		if isAtomRune(r) {
			b.WriteString("«" + a.get(r).Name + "»")
		} else {
			b.WriteRune(r)
		}
	}
	return b.String()
}

// ---------------------------------------------------------------- zero values, copying, keys

func zero(t types.Type) Value {
	switch u := t.Underlying().(type) {
	case *types.Basic:
		switch {
		case u.Info()&types.IsBoolean != 0:
			return false
		case u.Info()&types.IsInteger != 0:
			return int64(0)
		case u.Info()&types.IsFloat != 0:
			return float64(0)
		case u.Info()&types.IsString != 0:
			return Str{}
		case u.Kind() == types.UntypedNil:
			return Iface{}
		case u.Kind() == types.UnsafePointer:
			return (*Value)(nil)
		}
		return &Opaque{name: u.String()}
	case *types.Struct:
		s := make(Struct, u.NumFields())
		for i := range s {
			s[i] = zero(u.Field(i).Type())
		}
		return s
	case *types.Array:
		n := u.Len()
		a := make(Array, n)
		for i := range a {
			a[i] = zero(u.Elem())
		}
		return a
	case *types.Pointer:
		return (*Value)(nil)
	case *types.Slice:
		return Slice(nil)
	case *types.Map:
		return (*Map)(nil)
	case *types.Interface:
		return Iface{}
	case *types.Signature:
		return (*ssa.Function)(nil)
	case *types.Tuple:
		r := make(Tuple, u.Len())
		for i := range r {
			r[i] = zero(u.At(i).Type())
		}
		return r
	case *types.Chan:
		return (*Opaque)(nil)
	}
	return &Opaque{name: t.String()}
}

func copyVal(v Value) Value {
	switch v := v.(type) {
	case Struct:
		r := make(Struct, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	case Array:
		r := make(Array, len(v))
		for i := range v {
			r[i] = copyVal(v[i])
		}
		return r
	}
	return v
}

// storeTo assigns in place so that pointers to fields stay valid.
func storeTo(p *Value, v Value) {
	switch nv := v.(type) {
	case Struct:
		if old, ok := (*p).(Struct); ok && len(old) == len(nv) {
			if len(nv) > 0 && &old[0] == &nv[0] {
				return
			}
			tmp := copyVal(nv).(Struct)
			for i := range old {
				storeTo(&old[i], tmp[i])
			}
			return
		}
		*p = copyVal(v)
	case Array:
		if old, ok := (*p).(Array); ok && len(old) == len(nv) {
			tmp := copyVal(nv).(Array)
			for i := range old {
				storeTo(&old[i], tmp[i])
			}
			return
		}
		*p = copyVal(v)
	default:
		*p = v
	}
}

// key gives a canonical map key; ok=false if v has an undetermined part.
func keyOf(v Value) (string, bool) {
	switch v := v.(type) {
	case bool:
		return fmt.Sprintf("b%v", v), true
	case int64:
		return fmt.Sprintf("i%d", v), true
	case float64:
		return fmt.Sprintf("f%v", v), true
	case Str:
		return "s" + v.flat(), true
	case *Value:
		return fmt.Sprintf("p%p", v), true
	case Struct:
		var b strings.Builder
		b.WriteString("{")
		for _, f := range v {
			k, ok := keyOf(f)
			if !ok {
				return "", false
			}
			fmt.Fprintf(&b, "%d:%s,", len(k), k)
		}
		return b.String() + "}", true
	case Array:
		k, ok := keyOf(Struct(v))
		return "a" + k, ok
	case Iface:
		if v.t == nil {
			return "nil", true
		}
		k, ok := keyOf(v.v)
		return v.t.String() + ":" + k, ok
	case *Opaque:
		return fmt.Sprintf("o%p", v), true
	case *Closure:
		return fmt.Sprintf("c%p", v), true
	case *SInt:
		if v.dom != nil {
			return "", false
		}
		return fmt.Sprintf("t%s%+d", v.T, v.Add), true
	}
	return "", false
}

func sortedKeys[M ~map[string]V, V any](m M) []string {
	r := make([]string, 0, len(m))
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

var _ = regexp.MustCompile
