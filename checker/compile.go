package main

import (
	"fmt"
	"go/constant"
	"go/token"
	"go/types"
	"path/filepath"
	"strconv"
	"strings"
	"sync"

	"golang.org/x/tools/go/ssa"
)

// Repo-specific anchors, resolved through exported names only.

type Anchors struct {
	w          *World
	lexPkg     *ssa.Package
	tokType    types.Type
	fType      int
	fValue     int
	fRow       int
	fCol       int
	consts     map[string]int64 // lexer constant name -> value
	constName  map[int64]string
	newTransp  *ssa.Function
	transpile  *ssa.Function
	newConv    map[string]*ssa.Function
	tokenize   *ssa.Function
	allTypes   []int64
	tokenizeID string
}

func (w *World) anchors() (*Anchors, error) {
	a := &Anchors{w: w, consts: map[string]int64{}, constName: map[int64]string{}, newConv: map[string]*ssa.Function{}}
	a.lexPkg = w.pkg("lexer")
	if a.lexPkg == nil {
		return nil, fmt.Errorf("package lexer not found")
	}
	a.tokenize = a.lexPkg.Func("Tokenize")
	if a.tokenize == nil {
		return nil, fmt.Errorf("lexer.Tokenize not found")
	}
	a.tokenizeID = origName(a.tokenize)
	res := a.tokenize.Signature.Results()
	if res.Len() != 2 {
		return nil, fmt.Errorf("unexpected signature of lexer.Tokenize")
	}
	st, ok := res.At(0).Type().Underlying().(*types.Slice)
	if !ok {
		return nil, fmt.Errorf("lexer.Tokenize does not return a slice")
	}
	a.tokType = st.Elem()
	base := a.tokType
	if p, ok := base.(*types.Pointer); ok {
		base = p.Elem()
	}
	str, ok := base.Underlying().(*types.Struct)
	if !ok {
		return nil, fmt.Errorf("token is not a struct")
	}
	// discover the fields through the getters
	get := func(name string) int {
		for i := 0; i < str.NumFields(); i++ {
			in := newInterp(w, newAtoms())
			s := zero(str).(Struct)
			switch s[i].(type) {
			case int64:
				s[i] = int64(77)
			case Str:
				s[i] = S("probe")
			default:
				continue
			}
			var recv Value = s
			t := a.tokType
			f := in.findMethod(t, name)
			if f == nil {
				f = in.findMethod(types.NewPointer(t), name)
				p := new(Value)
				*p = s
				recv = p
			} else if _, ok := t.(*types.Pointer); ok {
				p := new(Value)
				*p = s
				recv = p
			}
			if f == nil {
				return -1
			}
			r := runPath(in, func(in *Interp) Value { return in.callFn(f, []Value{recv}, nil) })
			if r.Abort != nil {
				fmt.Println(r.Abort.msg)
			}
			switch v := r.Result.(type) {
			case int64:
				if v == 77 {
					return i
				}
			case Str:
				if v.flat() == "probe" {
					return i
				}
			}
		}
		return -1
	}
	a.fType, a.fValue, a.fRow, a.fCol = get("Type"), get("Value"), get("Row"), get("Column")
	if a.fType < 0 || a.fValue < 0 || a.fRow < 0 || a.fCol < 0 {
		return nil, fmt.Errorf("token getters not resolved: %d %d %d %d", a.fType, a.fValue, a.fRow, a.fCol)
	}
	tt := str.Field(a.fType).Type()
	for name, m := range a.lexPkg.Members {
		if c, ok := m.(*ssa.NamedConst); ok && types.Identical(c.Type(), tt) {
			if v, ok := constant.Int64Val(c.Value.Value); ok {
				a.consts[name] = v
				a.constName[v] = name
			}
		}
	}
	for v := range a.constName {
		a.allTypes = append(a.allTypes, v)
	}
	for _, n := range []string{"IDENTIFIER", "NUMBER_LITERAL", "STRING_LITERAL", "BOOL_LITERAL", "NIL_LITERAL", "NEWLINE", "EOF"} {
		if _, ok := a.consts[n]; !ok {
			return nil, fmt.Errorf("lexer constant %s not found", n)
		}
	}
	for _, n := range repoTokenName {
		if _, ok := a.consts[n]; !ok {
			return nil, fmt.Errorf("lexer constant %s not found", n)
		}
	}
	tp := w.pkg("transpiler")
	if tp == nil || tp.Func("New") == nil {
		return nil, fmt.Errorf("transpiler.New not found")
	}
	a.newTransp = tp.Func("New")
	rt := a.newTransp.Signature.Results().At(0).Type()
	in := newInterp(w, newAtoms())
	pt := rt
	if _, ok := rt.(*types.Pointer); !ok {
		pt = types.NewPointer(rt)
	}
	a.transpile = in.findMethod(pt, "Transpile")
	if a.transpile == nil {
		return nil, fmt.Errorf("Transpile not found")
	}
	for _, c := range []string{"bash", "batch"} {
		p := w.pkg("converters/" + c)
		if p == nil || p.Func("New") == nil {
			return nil, fmt.Errorf("converters/%s.New not found", c)
		}
		a.newConv[c] = p.Func("New")
	}
	return a, nil
}

// Project is a set of source files given as schema text.
type Project struct {
	Main  string            // path of the main file
	Files map[string]string // path -> schema source
	// Digest gives the first hexadecimal digits of the content hash of a file.
	Digest map[string]string
	// Lenient leaves restrictions that have programs of their own out of the verdict.
	Lenient bool
}

func oneFile(src string) *Project {
	return &Project{Main: "/w/main.tsh", Files: map[string]string{"/w/main.tsh": src}}
}

// Prepared is a project whose files are tokenised by the reference lexer.
type Prepared struct {
	P     *Project
	Atoms *Atoms
	Toks  map[string][]Tok // file -> tokens
	Dirs  map[string]bool
	// lexical errors are reported by hook
	LexErr map[string]error
	Top    int // number of ⊤ tokens appended after the listed tokens of the main file (0 = none)
	TopAt  int // position of the first ⊤ token
	raw    bool
}

func prepare(p *Project) *Prepared {
	pr := &Prepared{P: p, Atoms: newAtoms(), Toks: map[string][]Tok{}, Dirs: map[string]bool{}, LexErr: map[string]error{}}
	for _, f := range sortedKeys(p.Files) {
		t, err := refLex(p.Files[f], true)
		pr.Toks[f] = t
		if err != nil {
			pr.LexErr[f] = err
		}
		for d := filepath.Dir(f); ; d = filepath.Dir(d) {
			pr.Dirs[d] = true
			if d == "/" || d == "." {
				break
			}
		}
	}
	return pr
}

// identText gives the template of an identifier: its first character (which carries visibility) is
// known, the rest is an atom. Names starting with "K_" are kept literally (K_foo -> foo).
func (pr *Prepared) identText(v string) string {
	if strings.HasPrefix(v, "K_") {
		return v[2:]
	}
	return v[:1] + string(pr.Atoms.mk("id", v))
}

// strText maps schema string contents: \x01name\x01 becomes an opaque text; \x01c:name\x01 becomes
// an opaque character: an ordinary character that occurs nowhere else in the program.
func (pr *Prepared) strText(v string) string {
	for {
		i := strings.IndexByte(v, '\x01')
		if i < 0 {
			break
		}
		j := strings.IndexByte(v[i+1:], '\x01')
		kind := "str"
		if strings.HasPrefix(v[i+1:], "c:") {
			kind = "char"
		}
		v = v[:i] + string(pr.Atoms.mk(kind, v[i+1:i+1+j])) + v[i+1+j+1:]
	}
	return v
}

func (a *Anchors) tokValue(pr *Prepared, t Tok) (int64, string) {
	switch t.Kind {
	case tEOF:
		return a.consts["EOF"], ""
	case tNewline:
		return a.consts["NEWLINE"], "\n"
	case tIdent:
		return a.consts["IDENTIFIER"], pr.identText(t.V)
	case tInt:
		if strings.HasPrefix(t.V, "#") {
			return a.consts["NUMBER_LITERAL"], string(pr.Atoms.mk("int", t.V[1:]))
		}
		return a.consts["NUMBER_LITERAL"], t.V
	case tString:
		return a.consts["STRING_LITERAL"], pr.strText(t.V)
	case tBool:
		return a.consts["BOOL_LITERAL"], t.V
	case tNil:
		return a.consts["NIL_LITERAL"], t.V
	}
	return a.consts[repoTokenName[t.V]], t.V
}

func (a *Anchors) mkTok(in *Interp, pr *Prepared, t Tok, rowcol bool) Value {
	if t.Kind == tTop {
		k, _ := strconv.Atoi(t.V)
		return a.topTok(in, pr, k)
	}
	base := a.tokType
	ptr := false
	if p, ok := base.(*types.Pointer); ok {
		base = p.Elem()
		ptr = true
	}
	s := zero(base).(Struct)
	ty, v := a.tokValue(pr, t)
	s[a.fType] = ty
	s[a.fValue] = S(v)
	s[a.fRow] = int64(t.Row)
	s[a.fCol] = int64(t.Col)
	if ptr {
		p := new(Value)
		*p = s
		return p
	}
	return s
}

// topTok is a token about which nothing is known.
func (a *Anchors) topTok(in *Interp, pr *Prepared, k int) Value {
	base := a.tokType
	ptr := false
	if p, ok := base.(*types.Pointer); ok {
		base = p.Elem()
		ptr = true
	}
	s := zero(base).(Struct)
	d := &Dom{id: k, set: map[int64]bool{}, depth: k}
	for _, t := range a.allTypes {
		switch a.constName[t] {
		case "UNKNOWN", "COMMENT", "SPACE", "EOF":
			continue
		}
		d.set[t] = true
	}
	in.extra[fmt.Sprintf("dom%d", k)] = d
	s[a.fType] = &SInt{T: fmt.Sprintf("top%d", k), dom: d}
	s[a.fValue] = S(string(pr.Atoms.mk("top", fmt.Sprintf("tok%d", k))))
	s[a.fRow] = int64(900)
	s[a.fCol] = int64(k)
	if ptr {
		p := new(Value)
		*p = s
		return p
	}
	return s
}

// install sets up the file system and the tokenizer contract on the interpreter.
func (a *Anchors) install(in *Interp, pr *Prepared) {
	in.raw = pr.raw
	fs := in.fs()
	// equal contents are one text
	srcOf := map[string]string{}
	first := map[string]string{}
	for _, f := range sortedKeys(pr.P.Files) {
		g, ok := first[pr.P.Files[f]]
		if !ok {
			g = f
			first[pr.P.Files[f]] = f
		}
		srcOf[f] = string(pr.Atoms.mk("src", g))
		fs.Files[f] = srcOf[f]
	}
	if pr.P.Digest != nil {
		in.extra["digest"] = func(data string) string {
			for f, s := range srcOf {
				if s == data && pr.P.Digest[f] != "" {
					return pr.P.Digest[f]
				}
			}
			return ""
		}
	}
	for d := range pr.Dirs {
		fs.Dirs[d] = true
	}
	fs.Dirs["/w"] = true
	in.limit = pr.Top
	in.hooks[a.tokenizeID] = func(in *Interp, args []Value) Value {
		src := asStr(args[0]).flat()
		for _, f := range sortedKeys(pr.P.Files) {
			if src == srcOf[f] {
				if err := pr.LexErr[f]; err != nil {
					return Tuple{Slice(nil), in.mkError(S(err.Error()))}
				}
				var toks Slice
				for i, t := range pr.Toks[f] {
					if pr.Top > 0 && f == pr.P.Main && i == pr.TopAt {
						break
					}
					toks = append(toks, a.mkTok(in, pr, t, true))
				}
				if pr.Top > 0 && f == pr.P.Main {
					for k := 0; k < pr.Top+1; k++ {
						toks = append(toks, a.topTok(in, pr, k))
					}
				}
				return Tuple{toks, nilErr}
			}
		}
		in.undecided("Tokenize called on an unknown source")
		return nil
	}
}

// CompResult is one path summary of a transpilation.
type CompResult struct {
	Kind   string // script | error | panic | diverge | undecided | bound | exit
	Script Str
	Err    string
	ErrOrg token.Pos
	Where  string
	Path   []choice
	Events []Event
	Funcs  map[*cfunc]int
	Steps  int
	Both   bool // error and non-empty script
}

func (a *Anchors) newTranspiler(in *Interp) Value {
	t := in.callFn(a.newTransp, nil, nil)
	if _, ok := t.(*Value); ok {
		return t
	}
	p := new(Value)
	*p = t
	return p
}

func (a *Anchors) newConverter(in *Interp, target string) Iface {
	f := a.newConv[target]
	v := in.callFn(f, nil, nil)
	if i, ok := v.(Iface); ok {
		return i
	}
	return Iface{t: f.Signature.Results().At(0).Type(), v: v}
}

func (a *Anchors) runTranspile(in *Interp, t Value, path string, conv Iface) Value {
	return in.callFn(a.transpile, []Value{t, S(path), conv}, nil)
}

func summarize(r *PathResult) *CompResult {
	c := &CompResult{Path: r.Choices, Funcs: r.In.funcs, Steps: r.In.steps}
	if v, ok := r.In.extra["fs"].(*VFS); ok {
		c.Events = v.Events
	}
	switch {
	case r.Panic != nil:
		c.Kind = "panic"
		c.Err = r.Panic.msg
		c.Where = strings.Join(r.Panic.stack, " <- ")
	case r.Abort != nil:
		c.Kind = r.Abort.kind
		c.Err = r.Abort.msg
	default:
		t, ok := r.Result.(Tuple)
		if !ok || len(t) != 2 {
			c.Kind = "undecided"
			c.Err = "unexpected result shape"
			return c
		}
		c.Script = asStr(t[0])
		if e, ok := t[1].(Iface); ok && e.t != nil {
			c.Kind = "error"
			m := r.In.fmtVal(e.t, e.v, 'v')
			c.Err = r.In.atoms.show(m.flat())
			for _, p := range m.p {
				if p.org.IsValid() {
					c.ErrOrg = p.org
					break
				}
			}
			c.Both = len(c.Script.p) > 0
			return c
		}
		c.Kind = "script"
	}
	return c
}

// transpileAll computes the path summaries of a project for one target.
func (a *Anchors) transpileAll(pr *Prepared, target string, maxPaths int, visit func(c *CompResult)) (int, bool) {
	return explore(a.w, pr.Atoms, maxPaths, func(in *Interp) { a.install(in, pr) }, func(in *Interp) Value {
		t := a.newTranspiler(in)
		return a.runTranspile(in, t, pr.P.Main, a.newConverter(in, target))
	}, func(r *PathResult) { visit(summarize(r)) })
}

// transpileOne expects a single path (no undetermined choice).
func (a *Anchors) transpileOne(pr *Prepared, target string) *CompResult {
	r := a.transpilePath(pr, target)
	if r.Kind == "undecided" && !pr.raw {
		q := *pr
		q.raw = true
		if r2 := a.transpilePath(&q, target); r2.Kind != "undecided" {
			return r2
		}
	}
	return r
}

func (a *Anchors) transpilePath(pr *Prepared, target string) *CompResult {
	var res *CompResult
	n, ok := a.transpileAll(pr, target, 2, func(c *CompResult) {
		if res == nil {
			res = c
		}
	})
	if n > 1 || !ok {
		ks := []string{}
		for _, c := range res.Path {
			ks = append(ks, c.key)
		}
		return &CompResult{Kind: "undecided", Err: "the compiler branches on an opaque value: " + pr.Atoms.show(strings.Join(ks, ", ")), Funcs: res.Funcs}
	}
	return res
}

var _ = sync.Mutex{}
