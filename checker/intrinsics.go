package main

import (
	"errors"
	"fmt"
	"go/token"
	"go/types"
	"html"
	"math"
	"path"
	"path/filepath"
	"reflect"
	"regexp"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
	"unicode"
	"unicode/utf8"

	"golang.org/x/tools/go/ssa"
)

type intrinsic = func(in *Interp, args []Value) Value

var intrinsics map[string]intrinsic
var stdGlobals map[string]func(in *Interp) Value

// Event is an externally visible effect of the analysed code.
type Event struct {
	Op   string
	Path string
	Data string
	Site string
}

// VFS is the abstract file system seen by the analysed code.
type VFS struct {
	Files  map[string]string // path -> flattened content template
	Dirs   map[string]bool
	Events []Event
	Exe    string
	Cwd    string

	Links  map[string]string // path -> its target (symbolic and hard links)
	NoRead map[string]bool   // unreadable files
	NoAdd  map[string]bool   // files and directories that cannot be written
}

// resolve follows links in every part of an absolute path.
func (fs *VFS) resolve(p string) string {
	p = filepath.Clean(p)
	for n := 0; n < 20 && len(fs.Links) > 0; n++ {
		again := false
		for _, l := range sortedKeys(fs.Links) {
			if p == l || strings.HasPrefix(p, l+"/") {
				p = filepath.Clean(fs.Links[l] + p[len(l):])
				again = true
			}
		}
		if !again {
			break
		}
	}
	return p
}

// writable returns why a file cannot be written.
func (fs *VFS) writable(p string) string {
	switch {
	case fs.Dirs[p]:
		return "is a directory"
	case fs.NoAdd[p], fs.NoAdd[filepath.Dir(p)] && !fs.has(p):
		return "permission denied"
	case !fs.Dirs[filepath.Dir(p)]:
		return "no such file or directory"
	}
	return ""
}

func (fs *VFS) has(p string) bool {
	_, ok := fs.Files[p]
	return ok
}

func (in *Interp) fs() *VFS {
	if v, ok := in.extra["fs"].(*VFS); ok {
		return v
	}
	v := &VFS{Files: map[string]string{}, Dirs: map[string]bool{}, Exe: "/opt/tsh/tsh", Cwd: "/w"}
	in.extra["fs"] = v
	return v
}

func (in *Interp) event(op, path, data string) {
	v := in.fs()
	site := ""
	if in.cur != nil {
		site = in.where()
	}
	v.Events = append(v.Events, Event{op, path, data, site})
}

var nilErr = Iface{}

func asStr(v Value) Str {
	if s, ok := v.(Str); ok {
		return s
	}
	return Str{}
}

func (in *Interp) litStr(v Value) string {
	s, ok := v.(Str)
	if !ok {
		in.undecided("string needed, got %T", v)
	}
	l, ok := s.lit()
	if !ok {
		in.undecided("concrete string needed, got %q", in.atoms.show(l))
	}
	return l
}

// native functions callable on concrete arguments and, where marked generic, on templates in generic position.
var natives = map[string]any{
	"strings.HasPrefix": strings.HasPrefix, "strings.HasSuffix": strings.HasSuffix, "strings.Contains": strings.Contains,
	"strings.ContainsRune": strings.ContainsRune, "strings.ContainsAny": strings.ContainsAny,
	"strings.Index": strings.Index, "strings.LastIndex": strings.LastIndex, "strings.IndexByte": strings.IndexByte, "strings.IndexRune": strings.IndexRune, "strings.IndexAny": strings.IndexAny, "strings.LastIndexByte": strings.LastIndexByte, "strings.LastIndexAny": strings.LastIndexAny,
	"strings.TrimPrefix": strings.TrimPrefix, "strings.TrimSuffix": strings.TrimSuffix, "strings.TrimSpace": strings.TrimSpace,
	"strings.Trim": strings.Trim, "strings.TrimLeft": strings.TrimLeft, "strings.TrimRight": strings.TrimRight,
	"strings.Replace": strings.Replace, "strings.ReplaceAll": strings.ReplaceAll, "strings.Split": strings.Split, "strings.SplitN": strings.SplitN, "strings.SplitAfter": strings.SplitAfter,
	"strings.Count": strings.Count, "strings.Fields": strings.Fields, "strings.Repeat": strings.Repeat, "strings.EqualFold": strings.EqualFold,
	"strings.Cut": strings.Cut, "strings.CutPrefix": strings.CutPrefix, "strings.CutSuffix": strings.CutSuffix, "strings.Compare": strings.Compare,
	"strings.ToUpper": strings.ToUpper, "strings.ToLower": strings.ToLower, "strings.Title": strings.Title, "strings.ToTitle": strings.ToTitle,
	"strconv.Quote": strconv.Quote, "strconv.Unquote": strconv.Unquote, "strconv.ParseBool": strconv.ParseBool, "strconv.FormatBool": strconv.FormatBool,
	"strconv.QuoteToASCII": strconv.QuoteToASCII, "strconv.QuoteRune": strconv.QuoteRune, "strconv.UnquoteChar": strconv.UnquoteChar, "strconv.FormatUint": strconv.FormatUint, "strconv.ParseUint": strconv.ParseUint, "strconv.QuotedPrefix": strconv.QuotedPrefix,
	"filepath.Ext": filepath.Ext, "filepath.Base": filepath.Base, "filepath.Dir": filepath.Dir, "filepath.Clean": filepath.Clean, "filepath.IsAbs": filepath.IsAbs, "filepath.ToSlash": filepath.ToSlash, "filepath.FromSlash": filepath.FromSlash, "filepath.Rel": filepath.Rel, "filepath.Split": filepath.Split,
	"path/filepath.Ext": filepath.Ext, "path/filepath.Base": filepath.Base, "path/filepath.Dir": filepath.Dir, "path/filepath.Clean": filepath.Clean, "path/filepath.IsAbs": filepath.IsAbs, "path/filepath.ToSlash": filepath.ToSlash, "path/filepath.FromSlash": filepath.FromSlash, "path/filepath.Rel": filepath.Rel, "path/filepath.Split": filepath.Split, "path/filepath.VolumeName": filepath.VolumeName,
	"path.Ext": path.Ext, "path.Base": path.Base, "path.Dir": path.Dir, "path.Clean": path.Clean, "path.IsAbs": path.IsAbs,
	"unicode.IsUpper": unicode.IsUpper, "unicode.IsLower": unicode.IsLower, "unicode.IsLetter": unicode.IsLetter, "unicode.IsDigit": unicode.IsDigit, "unicode.IsSpace": unicode.IsSpace, "unicode.IsNumber": unicode.IsNumber, "unicode.IsPunct": unicode.IsPunct, "unicode.ToUpper": unicode.ToUpper, "unicode.ToLower": unicode.ToLower, "unicode.IsPrint": unicode.IsPrint, "unicode.IsControl": unicode.IsControl, "unicode.IsGraphic": unicode.IsGraphic,
	"unicode/utf8.RuneCountInString": utf8.RuneCountInString, "unicode/utf8.DecodeRuneInString": utf8.DecodeRuneInString, "unicode/utf8.DecodeLastRuneInString": utf8.DecodeLastRuneInString, "unicode/utf8.RuneLen": utf8.RuneLen, "unicode/utf8.ValidString": utf8.ValidString, "unicode/utf8.ValidRune": utf8.ValidRune,
	"regexp.QuoteMeta": regexp.QuoteMeta, "html.EscapeString": html.EscapeString, "math.Abs": math.Abs, "math.Floor": math.Floor, "math.Max": math.Max, "math.Min": math.Min, "math.Pow": math.Pow,
}

func (in *Interp) nativeStd(cf *cfunc, args []Value) (Value, bool) {
	if strings.HasPrefix(cf.name, "(*regexp.Regexp).") {
		p, ok := args[0].(*Value)
		if !ok || p == nil {
			in.rtPanic("nil regexp")
		}
		o, ok := (*p).(*Opaque)
		if !ok {
			return nil, false
		}
		m := reflect.ValueOf(o.v).MethodByName(cf.fn.Name())
		if !m.IsValid() {
			return nil, false
		}
		return in.reflectCall(m, args[1:], cf.name)
	}
	if v, ok := in.impureMethod(cf, args); ok {
		return v, true
	}
	if strings.HasPrefix(cf.name, "(*strings.Replacer).") && cf.fn.Name() == "Replace" {
		p := in.deref(args[0])
		o := (*p).(*Opaque)
		return in.reflectCall(reflect.ValueOf(o.v).MethodByName("Replace"), args[1:], cf.name)
	}
	f, ok := natives[cf.name]
	if !ok {
		return nil, false
	}
	return in.reflectCall(reflect.ValueOf(f), args, cf.name)
}

func toReflect(in *Interp, v Value, t reflect.Type) (reflect.Value, bool) {
	switch x := v.(type) {
	case Str:
		if t.Kind() == reflect.String {
			return reflect.ValueOf(x.flat()).Convert(t), true
		}
	case int64:
		switch t.Kind() {
		case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64, reflect.Uint8, reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
			return reflect.ValueOf(x).Convert(t), true
		}
	case *SInt:
		if x.dom == nil && x.text != "" && t.Kind() == reflect.Int {
			return reflect.Value{}, false
		}
	case bool:
		if t.Kind() == reflect.Bool {
			return reflect.ValueOf(x), true
		}
	case float64:
		if t.Kind() == reflect.Float64 {
			return reflect.ValueOf(x), true
		}
	case Slice:
		if t.Kind() == reflect.Slice {
			r := reflect.MakeSlice(t, 0, len(x))
			for _, e := range x {
				ev, ok := toReflect(in, e, t.Elem())
				if !ok {
					return reflect.Value{}, false
				}
				r = reflect.Append(r, ev)
			}
			return r, true
		}
	case *ssa.Function, *Closure, *Prim:
		if t.Kind() == reflect.Func {
			return reflect.MakeFunc(t, func(as []reflect.Value) []reflect.Value {
				var vs []Value
				for _, a := range as {
					vs = append(vs, fromReflect(in, a))
				}
				r := in.call(v, vs, token.NoPos)
				if t.NumOut() == 1 {
					rv, ok := toReflect(in, r, t.Out(0))
					if !ok {
						in.undecided("callback result")
					}
					return []reflect.Value{rv}
				}
				return nil
			}), true
		}
	}
	return reflect.Value{}, false
}

func fromReflect(in *Interp, v reflect.Value) Value {
	switch v.Kind() {
	case reflect.String:
		p := token.NoPos
		if in.cur != nil {
			p = in.cur.pos
		}
		return SO(v.String(), p)
	case reflect.Int, reflect.Int8, reflect.Int16, reflect.Int32, reflect.Int64:
		return v.Int()
	case reflect.Uint8, reflect.Uint, reflect.Uint16, reflect.Uint32, reflect.Uint64:
		return int64(v.Uint())
	case reflect.Bool:
		return v.Bool()
	case reflect.Float64:
		return v.Float()
	case reflect.Slice:
		if v.IsNil() {
			return Slice(nil)
		}
		r := make(Slice, v.Len())
		for i := range r {
			r[i] = fromReflect(in, v.Index(i))
		}
		return r
	case reflect.Interface:
		if v.IsNil() {
			return nilErr
		}
		if e, ok := v.Interface().(error); ok {
			return in.mkError(S(e.Error()))
		}
	}
	in.undecided("native result %v", v.Type())
	return nil
}

func (in *Interp) reflectCall(f reflect.Value, args []Value, name string) (Value, bool) {
	t := f.Type()
	var as []reflect.Value
	atoms := false
	for i, a := range args {
		var pt reflect.Type
		if t.IsVariadic() && i >= t.NumIn()-1 {
			pt = t.In(t.NumIn() - 1)
		} else {
			pt = t.In(i)
		}
		r, ok := toReflect(in, a, pt)
		if !ok {
			return nil, false
		}
		as = append(as, r)
		if s, ok := a.(Str); ok && hasAtom(s.flat()) {
			atoms = true
		}
		if n, ok := a.(int64); ok && isAtomRune(rune(n)) && strings.HasPrefix(name, "unicode.") {
			k := in.atoms.get(rune(n)).Kind
			switch name {
			case "unicode.IsLetter", "unicode.IsLower", "unicode.IsPrint", "unicode.IsGraphic":
				return k == "id" || ((k == "str" || k == "char") && name != "unicode.IsLetter" && name != "unicode.IsLower"), true
			case "unicode.IsDigit", "unicode.IsNumber":
				return k == "int", true
			}
		}
	}
	if atoms {
		switch name {
		case "strings.ToUpper", "strings.ToLower", "strings.Title", "strings.ToTitle":
			var b strings.Builder
			for _, r := range args[0].(Str).flat() {
				if isAtomRune(r) {
					a := in.atoms.get(r)
					b.WriteRune(in.atoms.mk(a.Kind, name[8:]+"("+a.Name+")"))
				} else if name == "strings.ToLower" {
					b.WriteRune(unicode.ToLower(r))
				} else {
					b.WriteRune(unicode.ToUpper(r))
				}
			}
			return SO(b.String(), in.cur.pos), true
		case "strings.Index", "strings.IndexByte", "strings.IndexRune", "strings.IndexAny", "strings.LastIndex", "strings.LastIndexByte", "strings.LastIndexAny":
			i := int(f.Call(as)[0].Int())
			pre := args[0].(Str).flat()
			if i > 0 && hasAtom(pre[:i]) {
				return in.strLen(S(pre[:i])), true
			}
			return int64(i), true
		}
		if strings.HasPrefix(name, "unicode/utf8.") || strings.HasPrefix(name, "strconv.") || strings.Contains(name, "filepath.") {
			if name != "strconv.Quote" && name != "strconv.Unquote" && !strings.Contains(name, "filepath") {
				return nil, false
			}
		}
	}
	// keep origins for pure slicing functions
	out := in.safeReflect(f, as, t.IsVariadic() && len(as) == t.NumIn())
	if len(out) == 1 {
		v := fromReflect(in, out[0])
		if s, ok := v.(Str); ok && len(args) > 0 {
			if a, ok := args[0].(Str); ok {
				if i := strings.Index(a.flat(), s.flat()); i >= 0 && s.flat() != "" {
					return a.sub(i, i+len(s.flat())), true
				}
			}
		}
		return v, true
	}
	var r Tuple
	for _, o := range out {
		r = append(r, fromReflect(in, o))
	}
	return r, true
}

func (in *Interp) safeReflect(f reflect.Value, as []reflect.Value, variadicSlice bool) (out []reflect.Value) {
	defer func() {
		if e := recover(); e != nil {
			switch e.(type) {
			case abort, targetPanic:
				panic(e)
			}
			in.rtPanic(fmt.Sprint(e))
		}
	}()
	if variadicSlice {
		return f.CallSlice(as)
	}
	return f.Call(as)
}

// ---------------------------------------------------------------- formatting

var methodCache = map[string]*ssa.Function{}

func (in *Interp) findMethod(t types.Type, name string) *ssa.Function {
	sel := in.w.Prog.MethodSets.MethodSet(t).Lookup(nil, name)
	if sel == nil {
		return nil
	}
	return in.w.Prog.MethodValue(sel)
}

func (in *Interp) intText(v Value, base int) string {
	switch x := v.(type) {
	case int64:
		return strconv.FormatInt(x, base)
	case *SInt:
		if x.dom != nil && len(x.dom.set) == 1 {
			return strconv.FormatInt(int64(in.asInt(x)), base)
		}
		if base == 10 {
			return string(in.termAtom(x))
		}
	}
	in.undecided("format integer %s", showVal(v))
	return ""
}

// termAtom gives the atom standing for the decimal text of an integer term.
func (in *Interp) termAtom(x *SInt) rune {
	k := in.termKey(x)
	if strings.HasPrefix(k, "int:") && x.Add == 0 {
		return in.atoms.mk("int", k[4:])
	}
	return in.atoms.mk("iterm", k)
}

// fmtVal renders a value in %v style.
func (in *Interp) fmtVal(t types.Type, v Value, verb byte) Str {
	org := token.NoPos
	if in.cur != nil {
		org = in.cur.pos
	}
	if i, ok := v.(Iface); ok {
		if i.t == nil {
			return SO("<nil>", org)
		}
		return in.fmtVal(i.t, i.v, verb)
	}
	if t != nil && verb != 'd' && verb != 'T' && verb != 'p' && verb != 't' && verb != 'c' {
		for _, m := range []string{"Error", "String"} {
			if f := in.findMethod(t, m); f != nil && f.Signature.Params().Len() == 0 && f.Signature.Results().Len() == 1 {
				if p, ok := v.(*Value); ok && p == nil {
					return SO("<nil>", org)
				}
				if s, ok := in.callFn(f, []Value{v}, nil).(Str); ok {
					return s
				}
			}
		}
	}
	switch x := v.(type) {
	case Str:
		return x
	case bool:
		return SO(strconv.FormatBool(x), org)
	case *SBool:
		return SO(strconv.FormatBool(in.truth(x)), org)
	case int64, *SInt:
		return SO(in.intText(v, 10), org)
	case float64:
		return SO(fmt.Sprint(x), org)
	case Slice, Array:
		var el types.Type
		var list []Value
		if s, ok := x.(Slice); ok {
			list = s
			if st, ok := t.Underlying().(*types.Slice); ok {
				el = st.Elem()
			}
		} else {
			list = x.(Array)
			if st, ok := t.Underlying().(*types.Array); ok {
				el = st.Elem()
			}
		}
		r := SO("[", org)
		for i, e := range list {
			if i > 0 {
				r = cat(r, SO(" ", org))
			}
			r = cat(r, in.fmtVal(el, e, verb))
		}
		return cat(r, SO("]", org))
	case Struct:
		r := SO("{", org)
		st, _ := t.Underlying().(*types.Struct)
		for i, e := range x {
			if i > 0 {
				r = cat(r, SO(" ", org))
			}
			r = cat(r, in.fmtVal(st.Field(i).Type(), e, verb))
		}
		return cat(r, SO("}", org))
	case *Map:
		r := SO("map[", org)
		if x != nil {
			ks := append([]string(nil), sortedKeys(x.idx)...)
			mt := t.Underlying().(*types.Map)
			for i, k := range ks {
				if i > 0 {
					r = cat(r, SO(" ", org))
				}
				j := x.idx[k]
				r = cat(r, in.fmtVal(mt.Key(), x.keys[j], verb))
				r = cat(r, SO(":", org))
				r = cat(r, in.fmtVal(mt.Elem(), x.vals[j], verb))
			}
		}
		return cat(r, SO("]", org))
	case *Value:
		if x == nil {
			return SO("<nil>", org)
		}
		if pt, ok := t.Underlying().(*types.Pointer); ok {
			if _, ok := pt.Elem().Underlying().(*types.Struct); ok {
				return cat(SO("&", org), in.fmtVal(pt.Elem(), *x, verb))
			}
		}
		return SO("0xc000010000", org)
	}
	return SO(fmt.Sprintf("%T", v), org)
}

func padStr(in *Interp, s Str, width int, left bool, zero bool) Str {
	f := s.flat()
	n := utf8.RuneCountInString(f)
	if n >= width {
		return s
	}
	if hasAtom(f) {
		in.undecided("padding of template")
	}
	c := " "
	if zero && !left {
		c = "0"
	}
	pad := SO(strings.Repeat(c, width-n), in.cur.pos)
	if left {
		return cat(s, pad)
	}
	return cat(pad, s)
}

func (in *Interp) sprintf(format Str, args []Value) Str {
	out := Str{}
	ai := 0
	nextArg := func() (Value, bool) {
		if ai < len(args) {
			ai++
			return args[ai-1], true
		}
		return nil, false
	}
	for _, pc := range format.p {
		s := pc.s
		i := 0
		for i < len(s) {
			j := strings.IndexByte(s[i:], '%')
			if j < 0 {
				out = cat(out, SO(s[i:], pc.org))
				break
			}
			out = cat(out, SO(s[i:i+j], pc.org))
			i += j + 1
			if i >= len(s) {
				out = cat(out, SO("%!(NOVERB)", pc.org))
				break
			}
			// flags
			left, zeroF, sharp := false, false, false
			width, prec := 0, -1
		flags:
			for i < len(s) {
				switch s[i] {
				case '-':
					left = true
				case '0':
					zeroF = true
				case '#':
					sharp = true
				case '+', ' ':
				default:
					break flags
				}
				i++
			}
			if i < len(s) && s[i] == '[' {
				k := strings.IndexByte(s[i:], ']')
				n, _ := strconv.Atoi(s[i+1 : i+k])
				ai = n - 1
				i += k + 1
			}
			if i < len(s) && s[i] == '*' {
				a, _ := nextArg()
				if iv, ok := a.(Iface); ok {
					width = in.asInt(iv.v)
				}
				if width < 0 {
					left, width = true, -width
				}
				i++
			}
			for i < len(s) && s[i] >= '0' && s[i] <= '9' {
				width = width*10 + int(s[i]-'0')
				i++
			}
			if i < len(s) && s[i] == '.' {
				i++
				prec = 0
				for i < len(s) && s[i] >= '0' && s[i] <= '9' {
					prec = prec*10 + int(s[i]-'0')
					i++
				}
			}
			if i < len(s) && s[i] == '[' {
				k := strings.IndexByte(s[i:], ']')
				n, _ := strconv.Atoi(s[i+1 : i+k])
				ai = n - 1
				i += k + 1
			}
			if i >= len(s) {
				out = cat(out, SO("%!(NOVERB)", pc.org))
				break
			}
			verb := s[i]
			i++
			if verb == '%' {
				out = cat(out, SO("%", pc.org))
				continue
			}
			a, ok := nextArg()
			if !ok {
				out = cat(out, SO("%!"+string(verb)+"(MISSING)", pc.org))
				continue
			}
			iv, _ := a.(Iface)
			var r Str
			switch verb {
			case 's', 'v', 'w':
				r = in.fmtVal(iv.t, iv.v, verb)
				if verb == 'v' && sharp {
					if str, isS := iv.v.(Str); isS {
						l, isL := str.lit()
						if !isL {
							in.undecided("%%#v of template")
						}
						r = SO(strconv.Quote(l), in.cur.pos)
					}
				}
				if verb == 's' {
					switch iv.v.(type) {
					case int64, *SInt:
						if iv.t != nil && in.findMethod(iv.t, "String") == nil && in.findMethod(iv.t, "Error") == nil {
							r = cat(SO("%!s(int=", pc.org), cat(r, SO(")", pc.org)))
						}
					case bool:
						r = cat(SO("%!s(bool=", pc.org), cat(r, SO(")", pc.org)))
					}
				}
				if prec >= 0 && verb == 's' {
					l, isL := r.lit()
					if !isL {
						in.undecided("precision on template")
					}
					rs := []rune(l)
					if len(rs) > prec {
						r = SO(string(rs[:prec]), in.cur.pos)
					}
				}
			case 'd':
				switch iv.v.(type) {
				case int64, *SInt:
					r = SO(in.intText(iv.v, 10), in.cur.pos)
				case Slice:
					r = in.fmtVal(iv.t, iv.v, 'd')
				default:
					r = cat(SO("%!d(", pc.org), cat(in.fmtVal(iv.t, iv.v, 'v'), SO(")", pc.org)))
				}
			case 't':
				r = in.fmtVal(iv.t, iv.v, 't')
			case 'q':
				str, isS := iv.v.(Str)
				if !isS {
					str = in.fmtVal(iv.t, iv.v, 'v')
				}
				if n, isI := iv.v.(int64); isI {
					r = SO(strconv.QuoteRune(rune(n)), in.cur.pos)
				} else if l, isL := str.lit(); isL {
					if sharp && strconv.CanBackquote(l) {
						r = SO("`"+l+"`", in.cur.pos)
					} else {
						r = SO(strconv.Quote(l), in.cur.pos)
					}
				} else {
					r = SO(quoteTemplate(l), in.cur.pos)
				}
			case 'c':
				r = SO(string(rune(in.asInt(iv.v))), in.cur.pos)
			case 'x', 'X':
				r = in.hexOf(iv)
				if verb == 'X' {
					if l, isL := r.lit(); isL {
						r = SO(strings.ToUpper(l), in.cur.pos)
					}
				}
			case 'T':
				n := "<nil>"
				if iv.t != nil {
					n = types.TypeString(iv.t, func(p *types.Package) string { return p.Name() })
				}
				r = SO(n, in.cur.pos)
			case 'p':
				r = SO(in.pointerText(), in.cur.pos)
			case 'b', 'o':
				base := 2
				if verb == 'o' {
					base = 8
				}
				r = SO(in.intText(iv.v, base), in.cur.pos)
			case 'f', 'g', 'e':
				if f, isF := iv.v.(float64); isF {
					if prec < 0 && verb == 'f' {
						prec = 6
					}
					r = SO(strconv.FormatFloat(f, verb, prec, 64), in.cur.pos)
				} else {
					in.undecided("verb %c of %T", verb, iv.v)
				}
			default:
				in.undecided("verb %c", verb)
			}
			if width > 0 {
				r = padStr(in, r, width, left, zeroF && verb != 's' && verb != 'v')
			}
			out = cat(out, r)
		}
	}
	if ai < len(args) {
		out = cat(out, S("%!(EXTRA)"))
	}
	return out
}

// quoteTemplate is strconv.Quote leaving atoms alone.
func quoteTemplate(s string) string {
	var b strings.Builder
	b.WriteByte('"')
	for _, r := range s {
		if isAtomRune(r) {
			b.WriteRune(r)
		} else {
			q := strconv.Quote(string(r))
			b.WriteString(q[1 : len(q)-1])
		}
	}
	b.WriteByte('"')
	return b.String()
}

func (in *Interp) hexOf(iv Iface) Str {
	switch x := iv.v.(type) {
	case int64:
		return SO(strconv.FormatInt(x, 16), in.cur.pos)
	case Str:
		if l, ok := x.lit(); ok {
			return SO(fmt.Sprintf("%x", l), in.cur.pos)
		}
	case Slice:
		return in.hexBytes([]Value(x))
	case Array:
		return in.hexBytes([]Value(x))
	}
	in.undecided("%%x of %T", iv.v)
	return Str{}
}

func (in *Interp) hexBytes(bs []Value) Str {
	var b strings.Builder
	for _, v := range bs {
		switch x := v.(type) {
		case int64:
			fmt.Fprintf(&b, "%02x", byte(x))
		case *SInt:
			if !strings.HasPrefix(x.T, "digest:") || x.Add != 0 {
				in.undecided("hex of %s", showVal(x))
			}
			if strings.HasSuffix(x.T, ":0") {
				// first nibble: letter or digit are the two classes that matter
				b.WriteString("c")
			} else {
				b.WriteRune(in.atoms.mk("hexchar", x.T+":h"))
			}
			b.WriteRune(in.atoms.mk("hexchar", x.T+":l"))
		default:
			in.undecided("hex of %T", v)
		}
	}
	return SO(b.String(), in.cur.pos)
}

func (in *Interp) digestOf(key string, n int) []Value {
	r := make([]Value, n)
	if d, ok := in.extra["digest"].(func(string) string); ok {
		if h := d(key); h != "" {
			for i := range r {
				b, _ := strconv.ParseUint((h + strings.Repeat("7", 2*n))[2*i:2*i+2], 16, 8)
				r[i] = int64(b)
			}
			return r
		}
	}
	for i := range r {
		r[i] = &SInt{T: fmt.Sprintf("digest:%s:%d", key, i)}
	}
	return r
}

type hashObj struct {
	data string
	n    int
}

func (h *hashObj) Invoke(in *Interp, name string, args []Value) Value {
	switch name {
	case "Write":
		s := args[0].(Slice)
		h.data += in.bytesToStr(s)
		return Tuple{int64(len(s)), nilErr}
	case "Sum":
		pre, _ := args[0].(Slice)
		return append(append(Slice{}, pre...), in.digestOf(h.data, h.n)...)
	case "Reset":
		h.data = ""
		return nil
	case "Size":
		return int64(h.n)
	case "BlockSize":
		return int64(64)
	}
	in.undecided("hash method %s", name)
	return nil
}

type vfile struct {
	path       string
	pos        int
	write, app bool
	closed     bool
	std        bool
}

func (in *Interp) callIntr(name string, args ...Value) Value { return intrinsics[name](in, args) }

type fileInfo struct {
	name string
	dir  bool
	path string
}

func (f *fileInfo) Invoke(in *Interp, name string, args []Value) Value {
	switch name {
	case "IsDir":
		return f.dir
	case "Name":
		return S(f.name)
	case "Size":
		return int64(len(in.fs().Files[f.path]))
	case "ModTime":
		in.event("env", "modification time of "+f.path, "")
		return &Opaque{name: "time", v: time.Unix(1600000000+int64(in.worldNo())*3607+int64(len(f.path)), 0).UTC()}
	case "Sys":
		return Iface{}
	case "Info":
		return Tuple{in.opaqueIface("FileInfo", f), nilErr}
	case "Mode", "Type":
		if f.dir {
			return int64(0x80000000 | 0o755)
		}
		return int64(0o644)
	}
	in.undecided("FileInfo.%s", name)
	return nil
}

var anyIfaceT = types.NewInterfaceType(nil, nil)

// opaqueIface wraps a modelled object as an interface value.
func (in *Interp) opaqueIface(name string, v any) Iface {
	// the dynamic type only needs to be non-nil
	t := types.NewNamed(types.NewTypeName(token.NoPos, nil, name, nil), types.NewStruct(nil, nil), nil)
	return Iface{t: t, v: &Opaque{name: name, v: v}}
}

func builderStr(in *Interp, p Value) *Value {
	s, ok := (*in.deref(p)).(Struct)
	if !ok {
		in.undecided("builder %T", p)
	}
	// first slice/bytes field holds the text
	for i := range s {
		switch s[i].(type) {
		case Slice, Str:
			return &s[i]
		}
	}
	in.undecided("builder layout")
	return nil
}

func builderGet(in *Interp, p Value) Str {
	v := builderStr(in, p)
	if s, ok := (*v).(Str); ok {
		return s
	}
	return Str{}
}

func builderAdd(in *Interp, p Value, s Str) {
	v := builderStr(in, p)
	cur, _ := (*v).(Str)
	*v = cat(cur, s)
}

func (in *Interp) write(w Value, s Str) {
	i, ok := w.(Iface)
	if !ok || i.t == nil {
		in.undecided("write to %T", w)
	}
	switch types.TypeString(i.t, nil) {
	case "*strings.Builder", "*bytes.Buffer":
		builderAdd(in, i.v, s)
	case "*os.File":
		name := "file"
		if p, ok := i.v.(*Value); ok {
			if o, ok := (*p).(*Opaque); ok {
				name = o.name
				if _, ok := o.v.(*vfile); ok {
					in.callIntr("(*os.File).WriteString", i.v, s)
					return
				}
			}
		}
		in.event("write:"+name, name, s.flat())
	default:
		if f := in.findMethod(i.t, "Write"); f != nil {
			in.callFn(f, []Value{i.v, strToBytes(s.flat())}, nil)
			return
		}
		in.undecided("write to %v", i.t)
	}
}

func variadic(v Value) []Value {
	s, _ := v.(Slice)
	return s
}

func (in *Interp) sprint(args []Value, ln bool) Str {
	r := Str{}
	prevStr := true
	for i, a := range args {
		iv, _ := a.(Iface)
		_, isS := iv.v.(Str)
		if i > 0 && (ln || (!isS && !prevStr)) {
			r = cat(r, SO(" ", in.cur.pos))
		}
		prevStr = isS
		r = cat(r, in.fmtVal(iv.t, iv.v, 'v'))
	}
	if ln {
		r = cat(r, SO("\n", in.cur.pos))
	}
	return r
}

func (in *Interp) pathErr(op, p, what string) Value {
	return in.mkError(S(op + " " + p + ": " + what))
}

func init() {
	methodsInit()
	stdGlobals = map[string]func(in *Interp) Value{
		"os.Args": func(in *Interp) Value {
			if a, ok := in.extra["args"].([]string); ok {
				var s Slice
				for _, x := range a {
					s = append(s, S(x))
				}
				return s
			}
			return Slice{S("tsh")}
		},
		"os.Stdout":         func(in *Interp) Value { p := new(Value); *p = &Opaque{name: "stdout"}; return p },
		"os.Stderr":         func(in *Interp) Value { p := new(Value); *p = &Opaque{name: "stderr"}; return p },
		"os.ErrNotExist":    func(in *Interp) Value { return in.mkError(S("file does not exist")) },
		"io/fs.ErrNotExist": func(in *Interp) Value { return in.mkError(S("file does not exist")) },
		"io.EOF":            func(in *Interp) Value { return in.mkError(S("EOF")) },
	}
}

func methodsInit() {
	I := map[string]intrinsic{}
	intrinsics = I
	// ---- fmt
	I["fmt.Sprintf"] = func(in *Interp, a []Value) Value { return in.sprintf(asStr(a[0]), variadic(a[1])) }
	I["fmt.Errorf"] = func(in *Interp, a []Value) Value {
		msg := in.sprintf(asStr(a[0]), variadic(a[1]))
		if strings.Contains(asStr(a[0]).flat(), "%w") {
			for _, x := range variadic(a[1]) {
				if iv, ok := x.(Iface); ok && iv.t != nil && in.findMethod(iv.t, "Error") != nil {
					t := in.w.ByPath["fmt"].Type("wrapError")
					s := new(Value)
					*s = Struct{msg, iv}
					return Iface{t: types.NewPointer(t.Type()), v: s}
				}
			}
		}
		return in.mkError(msg)
	}
	I["fmt.Sprint"] = func(in *Interp, a []Value) Value { return in.sprint(variadic(a[0]), false) }
	I["fmt.Sprintln"] = func(in *Interp, a []Value) Value { return in.sprint(variadic(a[0]), true) }
	out := func(in *Interp, s Str) Value {
		in.event("write:stdout", "stdout", s.flat())
		return Tuple{int64(1), nilErr}
	}
	I["fmt.Println"] = func(in *Interp, a []Value) Value { return out(in, in.sprint(variadic(a[0]), true)) }
	I["fmt.Print"] = func(in *Interp, a []Value) Value { return out(in, in.sprint(variadic(a[0]), false)) }
	I["fmt.Printf"] = func(in *Interp, a []Value) Value { return out(in, in.sprintf(asStr(a[0]), variadic(a[1]))) }
	I["fmt.Fprintf"] = func(in *Interp, a []Value) Value {
		in.write(a[0], in.sprintf(asStr(a[1]), variadic(a[2])))
		return Tuple{int64(1), nilErr}
	}
	I["fmt.Fprint"] = func(in *Interp, a []Value) Value {
		in.write(a[0], in.sprint(variadic(a[1]), false))
		return Tuple{int64(1), nilErr}
	}
	I["fmt.Fprintln"] = func(in *Interp, a []Value) Value {
		in.write(a[0], in.sprint(variadic(a[1]), true))
		return Tuple{int64(1), nilErr}
	}
	I["io.WriteString"] = func(in *Interp, a []Value) Value {
		in.write(a[0], asStr(a[1]))
		return Tuple{int64(1), nilErr}
	}
	// ---- errors
	I["errors.New"] = func(in *Interp, a []Value) Value { return in.mkError(asStr(a[0])) }
	I["errors.Is"] = func(in *Interp, a []Value) Value {
		x, _ := a[0].(Iface)
		y, _ := a[1].(Iface)
		for {
			if r, ok := in.equal(x, y).(bool); ok && r {
				return true
			}
			if x.t != nil && y.t != nil {
				xs := in.fmtVal(x.t, x.v, 'v').flat()
				ys := in.fmtVal(y.t, y.v, 'v').flat()
				if strings.HasSuffix(xs, ": "+ys) {
					return true
				}
			}
			if x.t == nil {
				return false
			}
			f := in.findMethod(x.t, "Unwrap")
			if f == nil {
				return false
			}
			x, _ = in.callFn(f, []Value{x.v}, nil).(Iface)
		}
	}
	I["errors.Join"] = func(in *Interp, a []Value) Value {
		r := Str{}
		n := 0
		for _, e := range variadic(a[0]) {
			if iv, ok := e.(Iface); ok && iv.t != nil {
				if n > 0 {
					r = cat(r, S("\n"))
				}
				n++
				r = cat(r, in.fmtVal(iv.t, iv.v, 'v'))
			}
		}
		if n == 0 {
			return nilErr
		}
		return in.mkError(r)
	}
	// ---- strconv
	I["strconv.Itoa"] = func(in *Interp, a []Value) Value { return SO(in.intText(a[0], 10), in.cur.pos) }
	I["strconv.FormatInt"] = func(in *Interp, a []Value) Value {
		return SO(in.intText(a[0], in.asInt(a[1])), in.cur.pos)
	}
	atoi := func(in *Interp, s Str, bits int) (Value, Value) {
		f := s.flat()
		if !hasAtom(f) {
			v, err := strconv.ParseInt(f, 10, bits)
			if err != nil {
				var ne *strconv.NumError
				if errors.As(err, &ne) {
					ne.Func = "Atoi"
				}
				return v, in.mkError(S(err.Error()))
			}
			return v, nilErr
		}
		rs := []rune(f)
		neg := false
		if rs[0] == '-' {
			neg = true
			rs = rs[1:]
		}
		if len(rs) == 1 {
			at := in.atoms.get(rs[0])
			if at.Kind == "int" || at.Kind == "iterm" {
				k := at.Name
				if at.Kind == "int" {
					k = "int:" + k
				}
				if neg {
					k = "neg(" + k + ")"
				}
				return &SInt{T: k}, nilErr
			}
		}
		return int64(0), in.mkError(S("invalid syntax"))
	}
	I["strconv.Atoi"] = func(in *Interp, a []Value) Value {
		v, e := atoi(in, asStr(a[0]), 64)
		return Tuple{v, e}
	}
	I["strconv.ParseInt"] = func(in *Interp, a []Value) Value {
		if b, ok := a[1].(int64); ok && b != 10 {
			if l, ok := asStr(a[0]).lit(); ok {
				v, err := strconv.ParseInt(l, int(b), in.asInt(a[2]))
				if err != nil {
					return Tuple{v, in.mkError(S(err.Error()))}
				}
				return Tuple{v, nilErr}
			}
		}
		v, e := atoi(in, asStr(a[0]), in.asInt(a[2]))
		return Tuple{v, e}
	}
	// ---- strings
	I["strings.Join"] = func(in *Interp, a []Value) Value {
		r := Str{}
		for i, e := range a[0].(Slice) {
			if i > 0 {
				r = cat(r, asStr(a[1]))
			}
			r = cat(r, asStr(e))
		}
		return r
	}
	I["strings.Clone"] = func(in *Interp, a []Value) Value { return a[0] }
	I["strings.NewReplacer"] = func(in *Interp, a []Value) Value {
		var ss []string
		for _, x := range variadic(a[0]) {
			ss = append(ss, asStr(x).flat())
		}
		p := new(Value)
		*p = &Opaque{name: "replacer", v: strings.NewReplacer(ss...)}
		return p
	}
	for _, b := range []string{"(*strings.Builder).", "(*bytes.Buffer)."} {
		I[b+"WriteString"] = func(in *Interp, a []Value) Value {
			builderAdd(in, a[0], asStr(a[1]))
			return Tuple{in.strLen(asStr(a[1])), nilErr}
		}
		I[b+"WriteByte"] = func(in *Interp, a []Value) Value {
			builderAdd(in, a[0], SO(string([]byte{byte(in.asInt(a[1]))}), in.cur.pos))
			return nilErr
		}
		I[b+"WriteRune"] = func(in *Interp, a []Value) Value {
			builderAdd(in, a[0], SO(string(rune(in.asInt(a[1]))), in.cur.pos))
			return Tuple{int64(1), nilErr}
		}
		I[b+"Write"] = func(in *Interp, a []Value) Value {
			builderAdd(in, a[0], SO(in.bytesToStr(a[1].(Slice)), in.cur.pos))
			return Tuple{int64(len(a[1].(Slice))), nilErr}
		}
		I[b+"String"] = func(in *Interp, a []Value) Value { return builderGet(in, a[0]) }
		I[b+"Len"] = func(in *Interp, a []Value) Value { return in.strLen(builderGet(in, a[0])) }
		I[b+"Reset"] = func(in *Interp, a []Value) Value { *builderStr(in, a[0]) = Str{}; return nil }
		I[b+"Grow"] = func(in *Interp, a []Value) Value { return nil }
		I[b+"Bytes"] = func(in *Interp, a []Value) Value { return strToBytes(builderGet(in, a[0]).flat()) }
	}
	I["bytes.NewBufferString"] = func(in *Interp, a []Value) Value {
		p := new(Value)
		*p = Struct{asStr(a[0]), int64(0), int64(0)}
		return p
	}
	// ---- sort
	insertion := func(in *Interp, s Slice, less func(i, j int) bool) {
		for i := 1; i < len(s); i++ {
			for j := i; j > 0 && less(j, j-1); j-- {
				s[j], s[j-1] = s[j-1], s[j]
			}
		}
	}
	I["sort.Strings"] = func(in *Interp, a []Value) Value {
		s := a[0].(Slice)
		insertion(in, s, func(i, j int) bool { return asStr(s[i]).flat() < asStr(s[j]).flat() })
		return nil
	}
	I["sort.Ints"] = func(in *Interp, a []Value) Value {
		s := a[0].(Slice)
		insertion(in, s, func(i, j int) bool { return in.asInt(s[i]) < in.asInt(s[j]) })
		return nil
	}
	sortSlice := func(in *Interp, a []Value) Value {
		iv := a[0].(Iface)
		s := iv.v.(Slice)
		insertion(in, s, func(i, j int) bool {
			return in.truth(in.call(a[1], []Value{int64(i), int64(j)}, token.NoPos))
		})
		return nil
	}
	I["sort.Slice"] = sortSlice
	I["sort.SliceStable"] = sortSlice
	// ---- regexp
	I["regexp.MustCompile"] = func(in *Interp, a []Value) Value {
		r, err := compileRE(in.litStr(a[0]))
		if err != nil {
			in.rtPanic(err.Error())
		}
		p := new(Value)
		*p = &Opaque{name: "regexp", v: r}
		return p
	}
	I["regexp.Compile"] = func(in *Interp, a []Value) Value {
		r, err := compileRE(in.litStr(a[0]))
		if err != nil {
			return Tuple{(*Value)(nil), in.mkError(S(err.Error()))}
		}
		p := new(Value)
		*p = &Opaque{name: "regexp", v: r}
		return Tuple{p, nilErr}
	}
	I["regexp.MatchString"] = func(in *Interp, a []Value) Value {
		ok, err := regexp.MatchString(in.litStr(a[0]), asStr(a[1]).flat())
		if err != nil {
			return Tuple{false, in.mkError(S(err.Error()))}
		}
		return Tuple{ok, nilErr}
	}
	// ---- hashes
	for name, n := range map[string]int{"crypto/sha256": 32, "crypto/sha1": 20, "crypto/md5": 16, "crypto/sha512": 64} {
		n := n
		I[name+".New"] = func(in *Interp, a []Value) Value { return in.opaqueIface("hash", &hashObj{n: n}) }
	}
	sum := func(n int) intrinsic {
		return func(in *Interp, a []Value) Value {
			return Array(in.digestOf(in.bytesToStr(a[0].(Slice)), n))
		}
	}
	I["crypto/sha256.Sum256"] = sum(32)
	I["crypto/sha1.Sum"] = sum(20)
	I["crypto/md5.Sum"] = sum(16)
	I["crypto/sha512.Sum512"] = sum(64)
	I["encoding/hex.EncodeToString"] = func(in *Interp, a []Value) Value { return in.hexBytes(a[0].(Slice)) }
	// ---- os, filepath
	abs := func(in *Interp, p string) string {
		if !filepath.IsAbs(p) {
			p = filepath.Join(in.fs().Cwd, p)
		}
		return in.fs().resolve(p)
	}
	I["path/filepath.Abs"] = func(in *Interp, a []Value) Value {
		p := asStr(a[0]).flat()
		if !filepath.IsAbs(p) {
			p = filepath.Join(in.fs().Cwd, p)
		}
		return Tuple{SO(filepath.Clean(p), in.cur.pos), nilErr}
	}
	I["path/filepath.EvalSymlinks"] = func(in *Interp, a []Value) Value {
		p := asStr(a[0]).flat()
		if len(in.fs().Links) > 0 {
			p = abs(in, p)
		}
		return Tuple{SO(filepath.Clean(p), in.cur.pos), nilErr}
	}
	join := func(in *Interp, a []Value) Value {
		var ps []string
		for _, x := range variadic(a[0]) {
			ps = append(ps, asStr(x).flat())
		}
		return SO(filepath.Join(ps...), in.cur.pos)
	}
	I["path/filepath.Join"] = join
	I["path.Join"] = join
	I["os.Getwd"] = func(in *Interp, a []Value) Value {
		in.event("env", "cwd", "")
		return Tuple{S(in.fs().Cwd), nilErr}
	}
	stat := func(in *Interp, a []Value) Value {
		if asStr(a[0]).flat() == "" {
			return Tuple{Iface{}, in.pathErr("stat", "", "no such file or directory")}
		}
		p := abs(in, asStr(a[0]).flat())
		fs := in.fs()
		if _, ok := fs.Files[p]; ok {
			return Tuple{in.opaqueIface("FileInfo", &fileInfo{name: filepath.Base(p), path: p}), nilErr}
		}
		if fs.Dirs[p] {
			return Tuple{in.opaqueIface("FileInfo", &fileInfo{name: filepath.Base(p), dir: true, path: p}), nilErr}
		}
		return Tuple{Iface{}, in.pathErr("stat", p, "no such file or directory")}
	}
	I["os.Stat"] = stat
	I["os.Lstat"] = stat
	I["os.SameFile"] = func(in *Interp, a []Value) Value {
		f := func(v Value) string {
			if iv, ok := v.(Iface); ok {
				if o, ok := iv.v.(*Opaque); ok {
					if fi, ok := o.v.(*fileInfo); ok {
						return fi.path
					}
				}
			}
			return ""
		}
		return f(a[0]) == f(a[1])
	}
	I["os.IsNotExist"] = func(in *Interp, a []Value) Value {
		iv := a[0].(Iface)
		return iv.t != nil && strings.Contains(in.fmtVal(iv.t, iv.v, 'v').flat(), "no such file")
	}
	I["os.ReadFile"] = func(in *Interp, a []Value) Value {
		p := abs(in, asStr(a[0]).flat())
		in.event("read", p, "")
		if in.fs().NoRead[p] {
			return Tuple{Slice(nil), in.pathErr("open", p, "permission denied")}
		}
		if c, ok := in.fs().Files[p]; ok {
			return Tuple{strToBytes(c), nilErr}
		}
		return Tuple{Slice(nil), in.pathErr("open", p, "no such file or directory")}
	}
	I["io/ioutil.ReadFile"] = I["os.ReadFile"]
	I["os.WriteFile"] = func(in *Interp, a []Value) Value {
		p := abs(in, asStr(a[0]).flat())
		data := in.bytesToStr(a[1].(Slice))
		if w := in.fs().writable(p); w != "" {
			in.event("writefail", p, data)
			return in.pathErr("open", p, w)
		}
		in.event("write", p, data)
		in.fs().Files[p] = data
		return nilErr
	}
	I["io/ioutil.WriteFile"] = I["os.WriteFile"]
	openFile := func(in *Interp, p string, flags int64) Value {
		fs := in.fs()
		const wr, create, excl, trunc, app = 3, 0x40, 0x80, 0x200, 0x400
		if flags&wr == 0 {
			if _, ok := fs.Files[p]; !ok || fs.NoRead[p] {
				return Tuple{(*Value)(nil), in.pathErr("open", p, "no such file or directory")}
			}
			return Tuple{in.opaquePtr("file", &vfile{path: p}), nilErr}
		}
		w := fs.writable(p)
		if w == "" && flags&create == 0 && !fs.has(p) {
			w = "no such file or directory"
		}
		if w == "" && flags&excl != 0 && fs.has(p) {
			w = "file exists"
		}
		if w != "" {
			in.event("writefail", p, "")
			return Tuple{(*Value)(nil), in.pathErr("open", p, w)}
		}
		f := &vfile{path: p, write: true, app: flags&app != 0}
		if flags&trunc != 0 || !fs.has(p) {
			in.event("write", p, "")
			fs.Files[p] = ""
		}
		return Tuple{in.opaquePtr("file", f), nilErr}
	}
	I["os.Create"] = func(in *Interp, a []Value) Value { return openFile(in, abs(in, asStr(a[0]).flat()), 0x242) }
	I["os.Open"] = func(in *Interp, a []Value) Value { return openFile(in, abs(in, asStr(a[0]).flat()), 0) }
	I["os.OpenFile"] = func(in *Interp, a []Value) Value {
		return openFile(in, abs(in, asStr(a[0]).flat()), int64(in.asInt(a[1])))
	}
	I["os.CreateTemp"] = func(in *Interp, a []Value) Value {
		d := asStr(a[0]).flat()
		if d == "" {
			d = "/tmp"
			in.fs().Dirs[d] = true
		}
		n := strings.Replace(asStr(a[1]).flat(), "*", "123456789", 1)
		return openFile(in, abs(in, filepath.Join(d, n)), 0x2c2)
	}
	file := func(in *Interp, v Value) *vfile {
		p := in.deref(v)
		f, ok := (*p).(*Opaque)
		if !ok {
			in.undecided("unknown file")
		}
		vf, ok := f.v.(*vfile)
		if !ok {
			return &vfile{path: f.name, write: true, app: true, std: true}
		}
		return vf
	}
	fwrite := func(in *Interp, f *vfile, data string) Value {
		if f.std {
			in.event("write:"+f.path, f.path, data)
			return Tuple{int64(len(data)), nilErr}
		}
		if f.closed || !f.write {
			return Tuple{int64(0), in.pathErr("write", f.path, "bad file descriptor")}
		}
		fs := in.fs()
		c := fs.Files[f.path]
		if f.app {
			f.pos = len(c)
		}
		in.event("write", f.path, data)
		if f.pos > len(c) {
			f.pos = len(c)
		}
		rest := ""
		if f.pos+len(data) < len(c) {
			rest = c[f.pos+len(data):]
		}
		fs.Files[f.path] = c[:f.pos] + data + rest
		f.pos += len(data)
		return Tuple{int64(len(data)), nilErr}
	}
	I["(*os.File).Write"] = func(in *Interp, a []Value) Value { return fwrite(in, file(in, a[0]), in.bytesToStr(a[1].(Slice))) }
	I["(*os.File).WriteString"] = func(in *Interp, a []Value) Value { return fwrite(in, file(in, a[0]), asStr(a[1]).flat()) }
	I["(*os.File).Close"] = func(in *Interp, a []Value) Value {
		f := file(in, a[0])
		if f.closed {
			return in.pathErr("close", f.path, "file already closed")
		}
		f.closed = true
		return nilErr
	}
	I["(*os.File).Sync"] = func(in *Interp, a []Value) Value { return nilErr }
	I["(*os.File).Chmod"] = func(in *Interp, a []Value) Value { return nilErr }
	I["(*os.File).Name"] = func(in *Interp, a []Value) Value { return S(file(in, a[0]).path) }
	I["(*os.File).Truncate"] = func(in *Interp, a []Value) Value {
		f := file(in, a[0])
		n := int(in.asInt(a[1]))
		c := in.fs().Files[f.path]
		if n > len(c) {
			in.undecided("Truncate beyond the end")
		}
		in.event("write", f.path, "")
		in.fs().Files[f.path] = c[:n]
		return nilErr
	}
	I["(*os.File).Stat"] = func(in *Interp, a []Value) Value { return in.callIntr("os.Stat", S(file(in, a[0]).path)) }
	I["io.ReadAll"] = func(in *Interp, a []Value) Value {
		f := file(in, a[0].(Iface).v)
		return Tuple{strToBytes(in.fs().Files[f.path]), nilErr}
	}
	I["os.Chmod"] = func(in *Interp, a []Value) Value { return nilErr }
	I["os.Mkdir"] = func(in *Interp, a []Value) Value {
		p := abs(in, asStr(a[0]).flat())
		in.event("mkdir", p, "")
		if in.fs().has(p) || in.fs().NoAdd[filepath.Dir(p)] {
			return in.pathErr("mkdir", p, "permission denied")
		}
		for d := p; d != "/"; d = filepath.Dir(d) {
			in.fs().Dirs[d] = true
		}
		return nilErr
	}
	I["os.MkdirAll"] = I["os.Mkdir"]
	I["os.Rename"] = func(in *Interp, a []Value) Value {
		p, q := abs(in, asStr(a[0]).flat()), abs(in, asStr(a[1]).flat())
		fs := in.fs()
		if !fs.has(p) {
			return in.pathErr("rename", p, "no such file or directory")
		}
		if fs.Dirs[q] || !fs.Dirs[filepath.Dir(q)] || fs.NoAdd[filepath.Dir(q)] {
			return in.pathErr("rename", q, "permission denied")
		}
		in.event("rename", p, q)
		fs.Files[q] = fs.Files[p]
		if p != q {
			delete(fs.Files, p)
		}
		return nilErr
	}
	I["os.Remove"] = func(in *Interp, a []Value) Value {
		p := abs(in, asStr(a[0]).flat())
		if !in.fs().has(p) {
			return in.pathErr("remove", p, "no such file or directory")
		}
		in.event("remove", p, "")
		delete(in.fs().Files, p)
		return nilErr
	}
	I["os.Executable"] = func(in *Interp, a []Value) Value {
		return Tuple{S(in.fs().Exe), nilErr}
	}
	I["os.Exit"] = func(in *Interp, a []Value) Value {
		panic(abort{kind: "exit", code: int64(in.asInt(a[0]))})
	}
	I["log.Fatal"] = func(in *Interp, a []Value) Value {
		in.event("write:stderr", "stderr", in.sprint(variadic(a[0]), true).flat())
		panic(abort{kind: "exit", code: 1})
	}
	I["log.Fatalf"] = func(in *Interp, a []Value) Value {
		in.event("write:stderr", "stderr", in.sprintf(asStr(a[0]), variadic(a[1])).flat())
		panic(abort{kind: "exit", code: 1})
	}
	I["log.Fatalln"] = I["log.Fatal"]
	I["io/fs.FileMode.IsDir"] = nil
	delete(I, "io/fs.FileMode.IsDir")
	I["(io/fs.FileMode).IsDir"] = func(in *Interp, a []Value) Value { return in.asInt(a[0])&0x80000000 != 0 }
	I["(io/fs.FileMode).IsRegular"] = func(in *Interp, a []Value) Value { return in.asInt(a[0])&0x80000000 == 0 }
	// ---- unique
	I["(*sync.Mutex).Lock"] = func(in *Interp, a []Value) Value { return nil }
	I["(*sync.Mutex).Unlock"] = func(in *Interp, a []Value) Value { return nil }
	I["(*sync.RWMutex).Lock"] = func(in *Interp, a []Value) Value { return nil }
	I["(*sync.RWMutex).Unlock"] = func(in *Interp, a []Value) Value { return nil }
	I["(*sync.RWMutex).RLock"] = func(in *Interp, a []Value) Value { return nil }
	I["(*sync.RWMutex).RUnlock"] = func(in *Interp, a []Value) Value { return nil }
	I["(*sync.Once).Do"] = func(in *Interp, a []Value) Value {
		s := (*in.deref(a[0])).(Struct)
		k := fmt.Sprintf("once%p", &s[0])
		if in.extra[k] == nil {
			in.extra[k] = true
			in.call(a[1], nil, token.NoPos)
		}
		return nil
	}
	impureInit(I)
	I["maps.clone"] = func(in *Interp, a []Value) Value {
		iv, isI := a[0].(Iface)
		v := a[0]
		if isI {
			v = iv.v
		}
		m, _ := v.(*Map)
		var r *Map
		if m != nil {
			r = newMap()
			for i := range m.keys {
				if m.live[i] {
					k, _ := keyOf(m.keys[i])
					r.set(k, m.keys[i], copyVal(m.vals[i]))
				}
			}
		}
		if isI {
			return Iface{t: iv.t, v: r}
		}
		return r
	}
	_ = sort.Strings
}

var reCache sync.Map

func compileRE(s string) (*regexp.Regexp, error) {
	if r, ok := reCache.Load(s); ok {
		return r.(*regexp.Regexp), nil
	}
	r, err := regexp.Compile(s)
	if err == nil {
		reCache.Store(s, r)
	}
	return r, err
}
