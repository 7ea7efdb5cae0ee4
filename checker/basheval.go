package main

import (
	"fmt"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- model of the Bash evaluation rules

type bvar struct {
	s     string
	set   bool
	arr   map[int64]string
	isArr bool
	ref   string // nameref target
	ro    bool
}

func (v *bvar) clone() *bvar {
	c := *v
	if v.arr != nil {
		c.arr = map[int64]string{}
		for k, x := range v.arr {
			c.arr[k] = x
		}
	}
	return &c
}

type bsink struct {
	kind byte // 'o' script stdout, 'e' script stderr, 'b' buffer, 'f' file, 'n' null
	b    *strings.Builder
	file string
}

type bflow int

const (
	bNone bflow = iota
	bBreak
	bCont
	bRet
)

type bsh struct {
	sy      *Sym
	obs     *Obs
	wm      *WorldModel
	files   map[string]string
	glob    map[string]*bvar
	locals  []map[string]*bvar
	funcs   map[string]*bFunc
	args    []string
	status  string
	pstat   []string // PIPESTATUS
	fds     [3]*bsink
	stdin   *bstdin
	steps   int
	loops   int
	flow    bflow
	flowN   int
	src     []rune
	curPos  int
	depth   int
	lines   []string
	lastOut []int // script line of each output line
	subst   int
	nostdin bool
}

type bstdin struct {
	lines []string
	pos   int
}

type bashExit struct{ code string }
type bashLimit struct{ msg string }

// maxText bounds the texts of the shell models.
const maxText = 1 << 17

func bashRun(script string, sy *Sym, wm *WorldModel) (obs *Obs, err error) {
	obs = &Obs{Exit: "0"}
	b := &bsh{sy: sy, obs: obs, wm: wm, files: map[string]string{}, glob: map[string]*bvar{}, funcs: map[string]*bFunc{}, status: "0", src: []rune(script)}
	b.stdin = &bstdin{}
	if wm != nil {
		for k, v := range wm.Files {
			b.files[k] = v
		}
		b.stdin.lines = wm.Stdin
	}
	b.glob["IFS"] = &bvar{s: " \t\n", set: true}
	for _, n := range []string{"UID", "EUID", "PPID"} {
		b.glob[n] = &bvar{s: "1000", set: true, ro: true}
	}
	for n, v := range map[string]string{"PATH": "/usr/bin", "HOME": "/home/u", "PWD": "/w", "OPTIND": "1", "PS4": "+ ", "BASH": "/bin/bash", "SHELL": "/bin/bash", "USER": "u", "HOSTNAME": "h"} {
		b.glob[n] = &bvar{s: v, set: true}
	}
	b.fds[1] = &bsink{kind: 'o'}
	b.fds[2] = &bsink{kind: 'e'}
	b.lines = strings.Split(script, "\n")
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case bashExit:
				obs.Exit = x.code
			case bashLimit:
				err = bashErr{x.msg, b.line(), true}
			default:
				panic(e)
			}
		}
	}()
	l, perr := parseBash(script)
	if perr != nil {
		if be, ok := perr.(bashErr); ok && be.unsup {
			return obs, be
		}
		obs.Err.WriteString("bash: " + perr.Error() + "\n")
		obs.Exit = "2"
		return obs, nil
	}
	b.list(l)
	obs.Exit = b.status
	return obs, nil
}

func (b *bsh) line() int {
	n := 1
	for k := 0; k < b.curPos && k < len(b.src); k++ {
		if b.src[k] == '\n' {
			n++
		}
	}
	return n
}

func (b *bsh) limit(f string, a ...any) { panic(bashLimit{fmt.Sprintf(f, a...)}) }

func (b *bsh) tick() {
	b.steps++
	if b.steps > 40000+200*b.sy.Ref && (b.wm == nil || b.steps > b.wm.Steps) {
		panic(bashLimit{"step bound of the shell model"})
	}
}

func (b *bsh) haz(f string, a ...any) {
	if len(b.obs.Haz) < 20 {
		b.obs.Haz = append(b.obs.Haz, hazard{fmt.Sprintf(f, a...), b.line()})
	}
}

func (b *bsh) write(fd int, s string) {
	k := b.fds[fd]
	switch k.kind {
	case 'o':
		b.obs.Out.WriteString(s)
		if b.obs.Out.Len() > 64*maxText {
			b.limit("the output gets too long")
		}
		ln := b.line()
		for i := 0; i < strings.Count(s, "\n"); i++ {
			b.obs.OutLine = append(b.obs.OutLine, ln)
		}
	case 'e':
		b.obs.Err.WriteString(s)
		b.obs.ErrLine = append(b.obs.ErrLine, b.line())
	case 'b':
		k.b.WriteString(s)
	case 'f':
		b.files[k.file] += s
	}
}

func (b *bsh) errf(f string, a ...any) {
	b.write(2, "bash: "+fmt.Sprintf(f, a...)+"\n")
}

// ---- variables

func (b *bsh) find(name string) *bvar {
	for i := len(b.locals) - 1; i >= 0; i-- {
		if v, ok := b.locals[i][name]; ok {
			return v
		}
	}
	if name == "PIPESTATUS" {
		v := &bvar{set: true, isArr: true, arr: map[int64]string{}}
		for i, s := range b.pstat {
			v.arr[int64(i)] = s
		}
		return v
	}
	return b.glob[name]
}

func (b *bsh) resolve(name string) string {
	for i := 0; i < 10; i++ {
		v := b.find(name)
		if v == nil || v.ref == "" {
			return name
		}
		name = v.ref
	}
	return name
}

func (b *bsh) setVar(name string, idx *Lin, val string, app bool) bool {
	name = b.resolve(name)
	if len(val) > maxText {
		b.limit("a variable gets more than %d characters", maxText)
	}
	if i := strings.IndexByte(name, '['); i > 0 {
		b.limit("nameref to an array element")
	}
	v := b.find(name)
	if v != nil && v.ro {
		b.errf("%s: readonly variable", name)
		return false
	}
	if v == nil {
		v = &bvar{}
		b.glob[name] = v
	}
	if idx == nil && v.isArr {
		z := lc(0)
		idx = &z
	}
	if idx != nil {
		if !v.isArr {
			v.isArr = true
			v.arr = map[int64]string{}
			if v.set {
				v.arr[0] = v.s
			}
		}
		k := b.constIdx(*idx)
		if k < 0 {
			m := int64(-1)
			for j := range v.arr {
				m = max(m, j)
			}
			k += m + 1
			if k < 0 {
				b.errf("%s[%d]: bad array subscript", name, k)
				return false
			}
		}
		if app {
			val = v.arr[k] + val
			if len(val) > maxText {
				b.limit("a variable gets more than %d characters", maxText)
			}
		}
		v.arr[k] = val
		v.set = true
		return true
	}
	if app {
		val = v.s + val
		if len(val) > maxText {
			b.limit("a variable gets more than %d characters", maxText)
		}
	}
	v.s, v.set = val, true
	return true
}

func (b *bsh) constIdx(l Lin) int64 {
	if !l.isConst() {
		b.limit("symbolic array index")
	}
	return l.c
}

func (b *bsh) arith(text string) (Lin, error) {
	if b.strAtom(text) {
		b.haz("string value evaluated as arithmetic")
	}
	e := &arithEnv{sy: b.sy, bash: true}
	e.get = func(n string, idx *Lin) string {
		v, _ := b.getVar(n, idx)
		return v
	}
	e.set = func(n string, idx *Lin, v string) { b.setVar(n, idx, v, false) }
	return e.eval(text)
}

func (b *bsh) getVar(name string, idx *Lin) (string, bool) {
	if idx == nil {
		if name[0] >= '0' && name[0] <= '9' {
			n, _ := strconv.Atoi(name)
			if n == 0 {
				return "bash", true
			}
			if n <= len(b.args) {
				return b.args[n-1], true
			}
			return "", false
		}
		switch name {
		case "?":
			return b.status, true
		case "#":
			return strconv.Itoa(len(b.args)), true
		case "$", "!", "-", "BASHPID", "RANDOM", "SECONDS", "LINENO", "EPOCHSECONDS", "EPOCHREALTIME", "SRANDOM", "BASH_COMMAND", "BASH_SUBSHELL", "FUNCNAME", "HISTCMD", "DIRSTACK", "GROUPS", "BASH_ARGV0", "COMP_WORDBREAKS":
			return string(b.sy.A.mk("sterm", "$"+name)), true
		case "*", "@":
			return strings.Join(b.args, " "), len(b.args) > 0
		}
	}
	name = b.resolve(name)
	v := b.find(name)
	if v == nil || !v.set {
		return "", false
	}
	if v.isArr {
		k := int64(0)
		if idx != nil {
			k = b.constIdx(*idx)
			if k < 0 {
				m := int64(-1)
				for j := range v.arr {
					m = max(m, j)
				}
				k += m + 1
			}
		}
		s, ok := v.arr[k]
		return s, ok
	}
	if idx != nil && b.constIdx(*idx) != 0 {
		return "", false
	}
	return v.s, true
}

func (b *bsh) elems(name string) ([]string, []int64) {
	if name == "@" || name == "*" {
		return b.args, nil
	}
	v := b.find(b.resolve(name))
	if v == nil || !v.set {
		return nil, nil
	}
	if !v.isArr {
		return []string{v.s}, []int64{0}
	}
	var ks []int64
	for k := range v.arr {
		ks = append(ks, k)
	}
	sort.Slice(ks, func(i, j int) bool { return ks[i] < ks[j] })
	var r []string
	for _, k := range ks {
		r = append(r, v.arr[k])
	}
	return r, ks
}

// ---- words

type bfield struct {
	text  strings.Builder
	pat   strings.Builder // as a pattern: quoted metacharacters escaped
	glob  bool
	began bool
}

func patQuote(s string) string {
	var b strings.Builder
	for _, c := range s {
		if strings.ContainsRune(`*?[]\!+@(|)`, c) {
			b.WriteByte('\\')
		}
		b.WriteRune(c)
	}
	return b.String()
}

// expansion of one part: a list of texts (several only for $@ / ${a[@]}), quoted or not
func (b *bsh) partText(p *bPart) (texts []string, multi bool) {
	switch p.k {
	case 'l':
		return []string{p.s}, false
	case 'c':
		return []string{b.cmdsub(p.c)}, false
	case 'a':
		t := b.one(p.w)
		l, err := b.arith(t)
		if err != nil {
			b.errf("%s: %v", b.sy.A.show(t), err)
			panic(bashCmdErr{})
		}
		return []string{b.sy.text(l)}, false
	case 'p':
		return b.param(p.p, p.q)
	}
	panic("part")
}

// bashCmdErr aborts the current top-level command (expansion error).
type bashCmdErr struct{}

// fatalExpansion: a failing expansion makes a non-interactive shell exit.
func (b *bsh) fatal(f string, a ...any) {
	b.errf(f, a...)
	panic(bashExit{"1"})
}

// one expands a word without splitting and globbing.
func (b *bsh) one(w *bWord) string {
	if w == nil {
		return ""
	}
	var s strings.Builder
	for i := range w.parts {
		t, _ := b.partText(&w.parts[i])
		s.WriteString(strings.Join(t, " "))
	}
	return s.String()
}

// pattern expands a word to a pattern: quoted text is literal.
func (b *bsh) pattern(w *bWord) string {
	if w == nil {
		return ""
	}
	var s strings.Builder
	for i := range w.parts {
		t, _ := b.partText(&w.parts[i])
		x := strings.Join(t, " ")
		if w.parts[i].q {
			x = patQuote(x)
		} else if b.strAtom(x) {
			b.haz("string value used as a pattern")
		}
		s.WriteString(x)
	}
	return s.String()
}

func (b *bsh) strAtom(s string) bool {
	for _, c := range s {
		if isAtomRune(c) {
			switch b.sy.A.get(c).Kind {
			case "str", "sterm", "char":
				return true
			}
		}
	}
	return false
}

// strStart: the text starts with an opaque string.
func (b *bsh) strStart(s string) bool {
	for _, c := range s {
		return b.strAtom(string(c))
	}
	return false
}

// fields expands a word with splitting and globbing.
func (b *bsh) fields(w *bWord) []string {
	var out []*bfield
	cur := &bfield{}
	push := func() {
		if cur.began {
			out = append(out, cur)
		}
		cur = &bfield{}
	}
	ifs, _ := b.getVar("IFS", nil)
	for i := range w.parts {
		p := &w.parts[i]
		texts, multi := b.partText(p)
		if p.q {
			if multi {
				if len(texts) == 0 {
					continue
				}
				for k, t := range texts {
					if k > 0 {
						push()
					}
					cur.began = true
					cur.text.WriteString(t)
					cur.pat.WriteString(patQuote(t))
				}
				continue
			}
			cur.began = true
			t := strings.Join(texts, " ")
			cur.text.WriteString(t)
			cur.pat.WriteString(patQuote(t))
			continue
		}
		if p.k == 'l' {
			cur.began = true
			cur.text.WriteString(p.s)
			cur.pat.WriteString(p.s)
			if strings.ContainsAny(p.s, "*?[") {
				cur.glob = true
			}
			continue
		}
		for k, t := range texts {
			if k > 0 {
				push()
			}
			if b.strAtom(t) {
				b.haz("string value expanded unquoted")
			}
			for _, c := range t {
				if strings.ContainsRune(ifs, c) {
					if c == ' ' || c == '\t' || c == '\n' {
						push()
					} else {
						cur.began = true
						push()
					}
					continue
				}
				cur.began = true
				cur.text.WriteRune(c)
				cur.pat.WriteRune(c)
				if c == '*' || c == '?' || c == '[' {
					cur.glob = true
				}
			}
		}
	}
	push()
	var r []string
	for _, f := range out {
		t := f.text.String()
		if f.glob {
			if m := b.globMatch(f.pat.String()); len(m) > 0 {
				r = append(r, m...)
				continue
			}
		}
		r = append(r, t)
	}
	return r
}

func (b *bsh) globMatch(pat string) []string {
	if hasAtom(pat) {
		return nil
	}
	var r []string
	for _, f := range sortedKeys(b.files) {
		if hasAtom(f) || strings.HasPrefix(f, ".") != strings.HasPrefix(pat, ".") {
			continue
		}
		if ok, err := filepath.Match(pat, f); err == nil && ok {
			r = append(r, f)
		}
	}
	return r
}

// matchPat matches a shell pattern (quoted metacharacters are escaped with \).
func (b *bsh) matchPat(pat, s string) bool {
	plain, special := unpat(pat)
	if !special {
		return b.sy.strEq(plain, s)
	}
	if pat == "*" {
		return true
	}
	if hasAtom(s) {
		b.limit("pattern match of an opaque value against %q", b.sy.A.show(pat))
	}
	return globMatch([]rune(pat), []rune(s))
}

func unpat(pat string) (string, bool) {
	var b strings.Builder
	special := false
	esc := false
	for _, c := range pat {
		if esc {
			b.WriteRune(c)
			esc = false
			continue
		}
		if c == '\\' {
			esc = true
			continue
		}
		if c == '*' || c == '?' || c == '[' {
			special = true
		}
		b.WriteRune(c)
	}
	if esc {
		b.WriteByte('\\')
	}
	return b.String(), special
}

func globMatch(p, s []rune) bool {
	if len(p) == 0 {
		return len(s) == 0
	}
	switch p[0] {
	case '*':
		for k := 0; k <= len(s); k++ {
			if globMatch(p[1:], s[k:]) {
				return true
			}
		}
		return false
	case '?':
		return len(s) > 0 && globMatch(p[1:], s[1:])
	case '[':
		end := -1
		for k := 2; k < len(p); k++ {
			if p[k] == ']' && !(k == 2 && (p[1] == '!' || p[1] == '^')) {
				end = k
				break
			}
		}
		if end > 0 {
			if len(s) == 0 {
				return false
			}
			set := p[1:end]
			neg := false
			if len(set) > 0 && (set[0] == '!' || set[0] == '^') {
				neg = true
				set = set[1:]
			}
			str := string(set)
			hit := false
			if strings.HasPrefix(str, "[:") {
				switch str {
				case "[:space:]":
					hit = strings.ContainsRune(" \t\n\r\v\f", s[0])
				case "[:digit:]":
					hit = s[0] >= '0' && s[0] <= '9'
				}
			}
			for k := 0; k < len(set); k++ {
				if k+2 < len(set) && set[k+1] == '-' {
					if s[0] >= set[k] && s[0] <= set[k+2] {
						hit = true
					}
					k += 2
				} else if set[k] == s[0] {
					hit = true
				}
			}
			return hit != neg && globMatch(p[end+1:], s[1:])
		}
	case '\\':
		if len(p) > 1 {
			return len(s) > 0 && s[0] == p[1] && globMatch(p[2:], s[1:])
		}
	}
	return len(s) > 0 && s[0] == p[0] && globMatch(p[1:], s[1:])
}

func (b *bsh) param(p *bParam, q bool) ([]string, bool) {
	name := p.name
	var idx *Lin
	all := name == "@" || name == "*"
	star := name == "*"
	if p.idx != nil {
		t := b.one(p.idx)
		if t == "@" || t == "*" {
			all = true
			star = t == "*"
		} else {
			l, err := b.arith(t)
			if err != nil {
				b.errf("%s: %v", b.sy.A.show(t), err)
				panic(bashCmdErr{})
			}
			idx = &l
		}
	}
	if p.indir {
		if all {
			if p.op == "" {
				_, ks := b.elems(name)
				var r []string
				for _, k := range ks {
					r = append(r, strconv.FormatInt(k, 10))
				}
				return r, !star
			}
		}
		if v := b.find(name); v != nil && v.ref != "" {
			return []string{v.ref}, false
		}
		t, _ := b.getVar(name, idx)
		if t == "" {
			b.errf("%s: invalid indirect expansion", name)
			panic(bashCmdErr{})
		}
		sub := &bparser{r: []rune("{" + t + "}")}
		sub.i = 1
		var np *bParam
		ok := true
		func() {
			defer func() {
				if recover() != nil {
					ok = false
				}
			}()
			np = sub.braceParam()
		}()
		if !ok || np.op != "" {
			b.errf("%s: invalid variable name", b.sy.A.show(t))
			panic(bashCmdErr{})
		}
		c := *p
		c.indir = false
		c.name = np.name
		c.idx = np.idx
		return b.param(&c, q)
	}
	if p.length {
		if all {
			e, _ := b.elems(name)
			return []string{strconv.Itoa(len(e))}, false
		}
		s, _ := b.getVar(name, idx)
		return []string{b.sy.text(b.sy.length(s))}, false
	}
	if all {
		es, _ := b.elems(name)
		switch p.op {
		case "":
		case ":":
			off := b.arithArg(p.arg)
			n := int64(len(es))
			o := b.constIdx(off)
			if o < 0 {
				o += n
			}
			e := n
			if p.arg2 != nil {
				e = o + b.constIdx(b.arithArg(p.arg2))
			}
			if o < 0 || o > n {
				es = nil
			} else {
				es = es[o:max(o, min(e, n))]
			}
		case "+", ":+":
			if len(es) > 0 {
				return []string{b.one(p.arg)}, false
			}
			return nil, true
		default:
			b.limit("operator %q on an array", p.op)
		}
		if star && q {
			ifs, _ := b.getVar("IFS", nil)
			sep := ""
			if ifs != "" {
				sep = string([]rune(ifs)[0])
			}
			return []string{strings.Join(es, sep)}, false
		}
		if !q {
			return es, true
		}
		return es, true
	}
	v, set := b.getVar(name, idx)
	one := func(s string) ([]string, bool) { return []string{s}, false }
	switch p.op {
	case "":
		return one(v)
	case "-", ":-":
		if !set || p.op == ":-" && b.empty(v) {
			return one(b.one(p.arg))
		}
		return one(v)
	case "=", ":=":
		if !set || p.op == ":=" && b.empty(v) {
			v = b.one(p.arg)
			b.setVar(name, idx, v, false)
		}
		return one(v)
	case "+", ":+":
		if set && !(p.op == ":+" && b.empty(v)) {
			return one(b.one(p.arg))
		}
		return one("")
	case "?", ":?":
		if !set || p.op == ":?" && b.empty(v) {
			b.fatal("%s: %s", name, b.one(p.arg))
		}
		return one(v)
	case ":":
		off := b.arithArg(p.arg)
		n := b.sy.length(v)
		if off.isConst() && off.c < 0 {
			off = off.add(n)
		}
		var l Lin
		if p.arg2 != nil {
			l = b.arithArg(p.arg2)
			if l.isConst() && l.c < 0 {
				l = n.add(l).sub(off)
				if l.isConst() && l.c < 0 {
					b.errf("%s: substring expression < 0", name)
					panic(bashCmdErr{})
				}
			}
		} else {
			l = n.sub(off)
			if l.isConst() && l.c < 0 {
				l = lc(0)
			}
		}
		return one(b.sy.substr(v, off, l))
	case "#", "##", "%", "%%":
		return one(b.trim(v, b.pattern(p.arg), p.op))
	case "/", "//", "/#", "/%":
		return one(b.replace(v, b.pattern(p.arg), b.one(p.arg2), p.op))
	}
	b.limit("parameter operator %q", p.op)
	return nil, false
}

func (b *bsh) empty(s string) bool { return b.sy.strEq(s, "") }

func (b *bsh) arithArg(w *bWord) Lin {
	t := b.one(w)
	l, err := b.arith(t)
	if err != nil {
		b.errf("%s: %v", b.sy.A.show(t), err)
		panic(bashCmdErr{})
	}
	return l
}

func (b *bsh) trim(v, pat, op string) string {
	if hasAtom(v) || hasAtom(pat) {
		plain, sp := unpat(pat)
		if !sp {
			if op[0] == '#' {
				return strings.TrimPrefix(v, plain)
			}
			return strings.TrimSuffix(v, plain)
		}
		b.limit("trim of an opaque value")
	}
	r := []rune(v)
	pr := []rune(pat)
	n := len(r)
	switch op {
	case "#":
		for k := 0; k <= n; k++ {
			if globMatch(pr, r[:k]) {
				return string(r[k:])
			}
		}
	case "##":
		for k := n; k >= 0; k-- {
			if globMatch(pr, r[:k]) {
				return string(r[k:])
			}
		}
	case "%":
		for k := n; k >= 0; k-- {
			if globMatch(pr, r[k:]) {
				return string(r[:k])
			}
		}
	case "%%":
		for k := 0; k <= n; k++ {
			if globMatch(pr, r[k:]) {
				return string(r[:k])
			}
		}
	}
	return v
}

func (b *bsh) replace(v, pat, rep, op string) string {
	plain, sp := unpat(pat)
	if plain == "" && !sp {
		return v
	}
	if !sp {
		switch op {
		case "//":
			return strings.ReplaceAll(v, plain, rep)
		case "/":
			return strings.Replace(v, plain, rep, 1)
		}
	}
	if hasAtom(v) || hasAtom(pat) {
		b.limit("replacement in an opaque value")
	}
	r := []rune(v)
	var out strings.Builder
	for i := 0; i <= len(r); {
		m := -1
		for k := len(r); k >= i; k-- {
			if globMatch([]rune(pat), r[i:k]) {
				m = k
				break
			}
		}
		if op == "/#" && i > 0 {
			m = -1
		}
		if op == "/%" && m != len(r) {
			m = -1
		}
		if m > i {
			out.WriteString(rep)
			i = m
			if op != "//" {
				out.WriteString(string(r[i:]))
				break
			}
			continue
		}
		if i < len(r) {
			out.WriteRune(r[i])
		}
		i++
	}
	return out.String()
}

// ---- commands

// subshell runs f on a copy of the state.
func (b *bsh) subshell(f func()) {
	og, ol, of, oa, ofd, oflow, oin := b.glob, b.locals, b.funcs, b.args, b.fds, b.flow, b.stdin
	b.glob = map[string]*bvar{}
	for k, v := range og {
		b.glob[k] = v.clone()
	}
	b.locals = nil
	for _, m := range ol {
		c := map[string]*bvar{}
		for k, v := range m {
			c[k] = v.clone()
		}
		b.locals = append(b.locals, c)
	}
	b.funcs = map[string]*bFunc{}
	for k, v := range of {
		b.funcs[k] = v
	}
	func() {
		defer func() {
			if e := recover(); e != nil {
				if x, ok := e.(bashExit); ok {
					b.status = x.code
					return
				}
				if _, ok := e.(bashCmdErr); ok {
					b.status = "1"
					return
				}
				panic(e)
			}
		}()
		f()
	}()
	b.glob, b.locals, b.funcs, b.args, b.fds, b.flow, b.stdin = og, ol, of, oa, ofd, oflow, oin
}

func (b *bsh) cmdsub(l *bList) string {
	var buf strings.Builder
	b.subst++
	loops := b.loops
	b.subshell(func() {
		b.fds[1] = &bsink{kind: 'b', b: &buf}
		b.loops = 0
		b.list(l)
	})
	b.loops = loops
	if r := []rune(buf.String()); len(r) > 0 && b.strAtom(string(r[len(r)-1:])) {
		b.haz("trailing line breaks of a string value lost in a command substitution")
	}
	return strings.TrimRight(buf.String(), "\n")
}

func (b *bsh) list(l *bList) {
	if l == nil {
		return
	}
	for _, a := range l.items {
		b.andOr(a)
		if b.flow != bNone {
			return
		}
	}
}

func (b *bsh) okStatus() bool {
	if b.status == "0" {
		return true
	}
	l, ok := b.sy.parseInt(b.status)
	if !ok {
		return false
	}
	return b.sy.cmp(l, lc(0)) == 0
}

func (b *bsh) andOr(a *bAndOr) {
	b.pipe(a.pipes[0])
	for i, op := range a.ops {
		if b.flow != bNone {
			return
		}
		if b.okStatus() == (op == "&&") {
			b.pipe(a.pipes[i+1])
		}
	}
}

func (b *bsh) pipe(p *bPipe) {
	if len(p.cmds) == 1 {
		b.cmd(p.cmds[0])
		if _, ok := p.cmds[0].(*bSimple); ok {
			b.pstat = []string{b.status}
		}
	} else {
		in := ""
		var st []string
		for i, c := range p.cmds {
			var buf strings.Builder
			last := i == len(p.cmds)-1
			b.subshell(func() {
				if i > 0 {
					b.stdin = textStdin(in)
				}
				if !last {
					b.fds[1] = &bsink{kind: 'b', b: &buf}
				}
				b.cmd(c)
			})
			in = buf.String()
			st = append(st, b.status)
		}
		b.pstat = st
	}
	if p.neg && b.flow == bNone {
		if b.okStatus() {
			b.status = "1"
		} else {
			b.status = "0"
		}
	}
}

func textStdin(s string) *bstdin {
	if s == "" {
		return &bstdin{}
	}
	nl := strings.HasSuffix(s, "\n")
	ls := strings.Split(strings.TrimSuffix(s, "\n"), "\n")
	if !nl {
		ls[len(ls)-1] += "\x00" // incomplete last line
	}
	return &bstdin{lines: ls}
}

// rest gives the remaining text of a standard input.
func (i *bstdin) rest() string {
	var s strings.Builder
	for _, l := range i.lines[i.pos:] {
		if strings.HasSuffix(l, "\x00") {
			s.WriteString(strings.TrimSuffix(l, "\x00"))
		} else {
			s.WriteString(l + "\n")
		}
	}
	i.pos = len(i.lines)
	return s.String()
}

func (b *bsh) setPos(p int) {
	if b.depth == 0 {
		b.curPos = p
	}
}

// cmd runs one command; an expansion error aborts it.
func (b *bsh) cmd(n bNode) {
	if _, ok := n.(*bSimple); !ok {
		depth, fds, in := b.depth, b.fds, b.stdin
		defer func() {
			if e := recover(); e != nil {
				if _, ok := e.(bashCmdErr); ok {
					b.status = "1"
					b.depth, b.fds, b.stdin = depth, fds, in
					return
				}
				panic(e)
			}
		}()
	}
	b.tick()
	switch n := n.(type) {
	case *bSimple:
		b.setPos(n.pos)
		b.simple(n)
	case *bRedirNode:
		save, in := b.fds, b.stdin
		ev, ok := b.redirect(n.redirs)
		if ok {
			b.cmd(n.n)
		} else {
			b.status = "1"
		}
		b.fds, b.stdin = save, in
		b.fileEvents(ev)
	case *bIf:
		for i, c := range n.conds {
			b.list(c)
			if b.flow != bNone {
				return
			}
			if b.okStatus() {
				b.list(n.bodies[i])
				return
			}
		}
		b.status = "0"
		b.list(n.els)
	case *bWhile:
		b.loops++
		st := "0"
		for {
			b.tick()
			b.list(n.cond)
			if b.loopFlow() {
				break
			}
			if b.okStatus() == n.until {
				b.status = st
				break
			}
			b.list(n.body)
			st = b.status
			if b.loopFlow() {
				break
			}
		}
		b.loops--
	case *bForIn:
		ws := b.args
		if n.hasIn {
			ws = nil
			for _, w := range n.words {
				ws = append(ws, b.fields(w)...)
			}
		}
		b.loops++
		b.status = "0"
		for _, w := range ws {
			b.tick()
			b.setVar(n.name, nil, w, false)
			b.list(n.body)
			if b.loopFlow() {
				break
			}
		}
		b.loops--
	case *bForArith:
		ar := func(w *bWord, def int64) Lin {
			t := b.one(w)
			if strings.TrimSpace(t) == "" {
				return lc(def)
			}
			l, err := b.arith(t)
			if err != nil {
				b.errf("((: %s: %v", b.sy.A.show(t), err)
				panic(bashCmdErr{})
			}
			return l
		}
		ar(n.init, 0)
		b.loops++
		for {
			b.tick()
			if b.sy.cmp(ar(n.cond, 1), lc(0)) == 0 {
				break
			}
			b.list(n.body)
			if b.loopFlow() {
				break
			}
			ar(n.post, 0)
		}
		b.loops--
	case *bCase:
		v := b.one(n.w)
		b.status = "0"
		for i := 0; i < len(n.items); i++ {
			hit := false
			for _, p := range n.items[i].pats {
				if b.matchPat(b.pattern(p), v) {
					hit = true
					break
				}
			}
			if hit {
				for {
					b.list(n.items[i].body)
					if n.items[i].term != ";&" || i+1 >= len(n.items) || b.flow != bNone {
						break
					}
					i++
				}
				if n.items[i].term == ";;&" && b.flow == bNone {
					continue
				}
				return
			}
		}
	case *bFunc:
		if !b.validFuncName(n.name) {
			b.errf("`%s': not a valid identifier", n.name)
			b.status = "1"
			return
		}
		b.funcs[n.name] = n
		b.status = "0"
	case *bGroup:
		if n.sub {
			b.subshell(func() { b.list(n.l) })
			return
		}
		b.list(n.l)
	case *bArithCmd:
		b.setPos(n.pos)
		t := b.one(n.w)
		l, err := b.arith(t)
		if err != nil {
			b.errf("((: %s: %v", b.sy.A.show(t), err)
			b.status = "1"
			return
		}
		b.status = "1"
		if b.sy.cmp(l, lc(0)) != 0 {
			b.status = "0"
		}
	case *bCond:
		b.setPos(n.pos)
		b.status = "1"
		if b.condX(n.x) {
			b.status = "0"
		}
	default:
		panic(fmt.Sprintf("node %T", n))
	}
}

func (b *bsh) validFuncName(n string) bool { return !strings.ContainsAny(n, "$`\"'\\<>") }

func (b *bsh) loopFlow() bool {
	switch b.flow {
	case bBreak:
		b.flowN--
		if b.flowN <= 0 {
			b.flow = bNone
		}
		return true
	case bCont:
		b.flowN--
		if b.flowN <= 0 {
			b.flow = bNone
			return false
		}
		return true
	case bRet:
		return true
	}
	return false
}

func (b *bsh) redirect(rs []bRedir) (files []string, ok bool) {
	for _, r := range rs {
		if r.op == ">&" || r.op == "<&" {
			t := b.one(r.w)
			switch {
			case t == "1" || t == "2":
				if r.fd > 2 {
					b.limit("file descriptor %d", r.fd)
				}
				b.fds[r.fd] = b.fds[int(t[0]-'0')]
			case t == "-":
				b.fds[r.fd] = &bsink{kind: 'n'}
			default:
				b.limit("redirection %s%s", r.op, b.sy.A.show(t))
			}
			continue
		}
		if r.op == "<<<" {
			b.stdin = textStdin(b.one(r.w) + "\n")
			continue
		}
		fs := b.fields(r.w)
		if len(fs) != 1 {
			b.errf("ambiguous redirect")
			return files, false
		}
		f := fs[0]
		if f == "/dev/stderr" {
			b.fds[r.fd] = b.fds[2]
			continue
		}
		if f == "/dev/stdout" {
			b.fds[r.fd] = b.fds[1]
			continue
		}
		if f == "" {
			b.errf(": No such file or directory")
			return files, false
		}
		switch r.op {
		case "<":
			if f == "/dev/null" {
				b.stdin = &bstdin{}
				continue
			}
			c, ex := b.files[f]
			if !ex {
				b.errf("%s: No such file or directory", b.sy.A.show(f))
				return files, false
			}
			b.stdin = textStdin(c)
		case ">", ">|", ">>", "&>", "&>>":
			var k *bsink
			if f == "/dev/null" {
				k = &bsink{kind: 'n'}
			} else {
				k = &bsink{kind: 'f', file: f}
				if _, ex := b.files[f]; !ex || !strings.HasSuffix(r.op, ">>") {
					b.files[f] = ""
				}
				files = append(files, f)
			}
			if strings.HasPrefix(r.op, "&") {
				b.fds[1], b.fds[2] = k, k
			} else {
				if r.fd > 2 {
					b.limit("file descriptor %d", r.fd)
				}
				b.fds[r.fd] = k
			}
		default:
			b.limit("redirection %s", r.op)
		}
	}
	return files, true
}

func (b *bsh) fileEvents(fs []string) {
	for _, f := range fs {
		b.obs.Ev = append(b.obs.Ev, fmt.Sprintf("file %s = %q", f, b.files[f]))
	}
}

func (b *bsh) doAssign(a *bAssign, local map[string]*bvar) bool {
	if local != nil {
		if _, ok := local[a.name]; !ok {
			local[a.name] = &bvar{}
		}
	}
	if a.isA {
		type kv struct {
			k int64
			v string
		}
		var kvs []kv
		next := int64(0)
		if a.app {
			if _, ks := b.elems(a.name); len(ks) > 0 {
				next = ks[len(ks)-1] + 1
			}
		}
		for _, e := range a.arr {
			if e.idx != nil {
				next = b.constIdx(b.arithArg(e.idx))
				kvs = append(kvs, kv{next, b.one(e.val)})
				next++
				continue
			}
			for _, f := range b.fields(e.val) {
				kvs = append(kvs, kv{next, f})
				next++
			}
		}
		name := b.resolve(a.name)
		v := b.find(name)
		if v != nil && v.ro {
			b.errf("%s: readonly variable", name)
			return false
		}
		if v == nil {
			v = &bvar{}
			b.glob[name] = v
		}
		if !a.app || !v.isArr {
			old := v
			v.arr = map[int64]string{}
			if a.app && old.set {
				v.arr[0] = old.s
			}
		}
		v.isArr, v.set = true, true
		for _, x := range kvs {
			v.arr[x.k] = x.v
		}
		return true
	}
	var idx *Lin
	val := b.one(a.val)
	if a.idx != nil {
		l := b.arithArg(a.idx)
		idx = &l
	}
	return b.setVar(a.name, idx, val, a.app)
}

func (b *bsh) simple(n *bSimple) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(bashCmdErr); ok {
				b.status = "1"
				// an expansion error discards the whole command; at top level the shell goes on
				return
			}
			panic(e)
		}
	}()
	var ws []string
	sub := b.subst
	for _, w := range n.words {
		if len(w.parts) == 1 && w.parts[0].k == 'A' {
			continue
		}
		ws = append(ws, b.fields(w)...)
	}
	if len(ws) == 0 {
		save, in := b.fds, b.stdin
		ev, ok := b.redirect(n.redirs)
		st := "0"
		for _, a := range n.assigns {
			if !b.doAssign(a, nil) {
				// assigning a readonly variable exits the shell in this position
				b.fds, b.stdin = save, in
				panic(bashExit{"1"})
			}
		}
		b.fds, b.stdin = save, in
		b.fileEvents(ev)
		if !ok {
			b.status = "1"
			return
		}
		if b.subst == sub {
			b.status = st
		}
		return
	}
	save, in := b.fds, b.stdin
	ev, ok := b.redirect(n.redirs)
	if !ok {
		b.fds, b.stdin = save, in
		b.status = "1"
		b.fileEvents(ev)
		return
	}
	// temporary assignments
	var undo []func()
	for _, a := range n.assigns {
		old, had := b.glob[a.name]
		var cp *bvar
		if had {
			cp = old.clone()
		}
		nm := a.name
		inLocal := b.find(nm) != nil && b.find(nm) != old
		if inLocal {
			b.limit("temporary assignment to a local")
		}
		b.doAssign(a, nil)
		undo = append(undo, func() {
			if had {
				b.glob[nm] = cp
			} else {
				delete(b.glob, nm)
			}
		})
	}
	b.run(ws, n)
	for _, u := range undo {
		u()
	}
	b.fds, b.stdin = save, in
	b.fileEvents(ev)
}

func (b *bsh) call(f *bFunc, args []string) {
	if len(b.locals) > 60 {
		b.limit("call depth of the shell model")
	}
	oa, ol := b.args, b.loops
	b.args = args
	b.loops = 0
	b.locals = append(b.locals, map[string]*bvar{})
	b.status = "0"
	b.cmd(f.body)
	if b.flow == bRet || b.flow != bNone {
		b.flow = bNone
	}
	b.locals = b.locals[:len(b.locals)-1]
	b.args, b.loops = oa, ol
}

func (b *bsh) run(ws []string, n *bSimple) {
	name, args := ws[0], ws[1:]
	if f, ok := b.funcs[name]; ok {
		b.call(f, args)
		return
	}
	b.builtin(name, args, n)
}

func (b *bsh) intArg(args []string, def string) string {
	if len(args) == 0 {
		return def
	}
	return args[0]
}

func exitCode(sy *Sym, s string) string {
	if l, ok := sy.parseInt(s); ok && l.isConst() {
		return strconv.FormatInt(l.c&255, 10)
	}
	return s
}

func (b *bsh) builtin(name string, args []string, n *bSimple) {
	switch name {
	case ":", "true":
		b.status = "0"
	case "false":
		b.status = "1"
	case "echo":
		b.echo(args)
	case "printf":
		b.printf(args)
	case "[", "test":
		if name == "[" {
			if len(args) == 0 || args[len(args)-1] != "]" {
				b.errf("[: missing `]'")
				b.status = "2"
				return
			}
			args = args[:len(args)-1]
		}
		b.status = b.test(args)
	case "exit":
		c := b.intArg(args, b.status)
		if _, ok := b.sy.parseInt(c); !ok {
			b.errf("exit: %s: numeric argument required", b.sy.A.show(c))
			c = "2"
		}
		panic(bashExit{exitCode(b.sy, c)})
	case "return":
		if len(b.locals) == 0 {
			b.errf("return: can only `return' from a function or sourced script")
			b.status = "1"
			return
		}
		c := b.intArg(args, b.status)
		if _, ok := b.sy.parseInt(c); !ok {
			b.errf("return: %s: numeric argument required", b.sy.A.show(c))
			c = "2"
		}
		b.status = exitCode(b.sy, c)
		b.flow = bRet
	case "break", "continue":
		b.status = "0"
		k, ok := b.sy.parseInt(b.intArg(args, "1"))
		if !ok || !k.isConst() || k.c < 1 {
			b.errf("%s: loop count", name)
			b.status = "1"
			return
		}
		if b.loops == 0 {
			b.errf("%s: only meaningful in a `for', `while', or `until' loop", name)
			return
		}
		b.flow, b.flowN = bBreak, int(min(k.c, int64(b.loops)))
		if name == "continue" {
			b.flow = bCont
		}
	case "local", "declare", "typeset", "export", "readonly":
		b.declare(name, args, n)
	case "unset":
		b.status = "0"
		fn := false
		for _, a := range args {
			switch a {
			case "-v":
				continue
			case "-f":
				fn = true
				continue
			}
			if fn {
				delete(b.funcs, a)
				continue
			}
			if i := strings.IndexByte(a, '['); i > 0 && strings.HasSuffix(a, "]") {
				l, err := b.arith(a[i+1 : len(a)-1])
				if err != nil {
					b.limit("unset %s", a)
				}
				if v := b.find(b.resolve(a[:i])); v != nil && v.isArr {
					delete(v.arr, b.constIdx(l))
				}
				continue
			}
			if v := b.find(a); v != nil {
				if v.ro {
					b.errf("unset: %s: cannot unset: readonly variable", a)
					b.status = "1"
					continue
				}
				*v = bvar{}
			}
		}
	case "eval":
		src := strings.Join(args, " ")
		if b.strAtom(src) {
			b.haz("string value inside eval text")
		}
		if b.depth > 20 {
			b.limit("eval depth")
		}
		l, err := parseBash(src)
		if err != nil {
			if be, ok := err.(bashErr); ok && be.unsup {
				b.limit("eval: %v", err)
			}
			b.errf("eval: %v", err)
			b.status = "2"
			return
		}
		b.depth++
		b.status = "0"
		b.list(l)
		b.depth--
	case "let":
		for _, a := range args {
			l, err := b.arith(a)
			if err != nil {
				b.errf("let: %v", err)
				b.status = "1"
				return
			}
			b.status = "1"
			if b.sy.cmp(l, lc(0)) != 0 {
				b.status = "0"
			}
		}
	case "read":
		b.read(args)
	case "shift":
		k := int64(1)
		if len(args) > 0 {
			l, ok := b.sy.parseInt(args[0])
			if !ok || !l.isConst() {
				b.limit("shift")
			}
			k = l.c
		}
		b.status = "1"
		if k <= int64(len(b.args)) {
			b.args = b.args[k:]
			b.status = "0"
		}
	case "set":
		if len(args) > 0 && args[0] == "--" {
			b.args = args[1:]
			b.status = "0"
			return
		}
		if len(args) == 1 && (args[0] == "-f" || args[0] == "+f") {
			b.limit("set %s", args[0])
		}
		b.limit("set %s", strings.Join(args, " "))
	case "cat":
		if !b.pathOK(name) {
			return
		}
		b.cat(args)
	case "command", "builtin":
		if len(args) > 0 && args[0] == "--" {
			if args = args[1:]; len(args) == 0 {
				b.limit("%s without a command", name)
			}
			b.builtin(args[0], args[1:], n)
			return
		}
		if len(args) > 0 && !strings.HasPrefix(args[0], "-") {
			b.builtin(args[0], args[1:], n)
			return
		}
		b.limit("%s %s", name, strings.Join(args, " "))
	case "exec", "source", ".", "trap", "wait", "shopt", "alias", "mapfile", "readarray", "getopts", "hash", "ulimit", "umask", "type", "cd", "pushd", "popd", "jobs", "kill", "enable", "bind", "times", "caller", "help", "history", "logout", "suspend", "fg", "bg", "disown", "dirs", "compgen", "complete":
		b.limit("builtin %s", name)
	case "tr", "sed", "grep", "awk", "head", "tail", "cut", "tee", "rm", "mv", "cp", "touch", "ls", "expr", "wc", "seq", "sleep", "date", "sort", "env", "xargs", "basename", "dirname", "mktemp", "mkdir":
		if b.wm != nil && b.wm.Progs[name] != nil {
			b.program(name, args)
			return
		}
		b.limit("program %s", name)
	default:
		b.program(name, args)
	}
}

func (b *bsh) pathOK(name string) bool {
	if strings.Contains(name, "/") {
		return true
	}
	if v := b.find("PATH"); v != nil && v.s != "/usr/bin" {
		b.errf("%s: command not found", b.sy.A.show(name))
		b.status = "127"
		return false
	}
	return true
}

func (b *bsh) program(name string, args []string) {
	if b.wm == nil || b.wm.Progs[name] == nil {
		b.errf("%s: command not found", b.sy.A.show(name))
		b.status = "127"
		return
	}
	if !b.pathOK(name) {
		return
	}
	in := ""
	if b.stdin != nil && b.subst >= 0 {
		if b.inPipe() {
			in = b.stdin.rest()
		}
	}
	out, errOut, code := runProg(b.wm, b.sy, b.obs, name, args, in)
	b.write(1, out)
	if errOut != "" {
		b.write(2, errOut)
	}
	b.status = code
}

// inPipe: standard input is not the script's own.
func (b *bsh) inPipe() bool {
	if b.wm == nil {
		return true
	}
	if len(b.stdin.lines) == 0 {
		return true
	}
	return len(b.wm.Stdin) == 0 || &b.stdin.lines[0] != &b.wm.Stdin[0]
}

func (b *bsh) echo(args []string) {
	nl, esc := true, false
	for len(args) > 0 {
		a := args[0]
		if len(a) < 2 || a[0] != '-' || strings.Trim(a[1:], "neE") != "" {
			break
		}
		for _, c := range a[1:] {
			switch c {
			case 'n':
				nl = false
			case 'e':
				esc = true
			case 'E':
				esc = false
			}
		}
		args = args[1:]
	}
	s := strings.Join(args, " ")
	if len(args) > 0 && b.strStart(args[0]) {
		b.haz("string value in the option position of echo")
	}
	if esc && b.strAtom(s) {
		b.haz("escape sequences of a string value interpreted by echo")
	}
	if esc {
		t, stop := b.escapes(s)
		s = t
		if stop {
			nl = false
		}
	}
	if nl {
		s += "\n"
	}
	b.write(1, s)
	b.status = "0"
}

func (b *bsh) escapes(s string) (string, bool) {
	var o strings.Builder
	r := []rune(s)
	for i := 0; i < len(r); i++ {
		if r[i] != '\\' || i+1 >= len(r) {
			o.WriteRune(r[i])
			continue
		}
		i++
		switch r[i] {
		case 'n':
			o.WriteRune('\n')
		case 't':
			o.WriteRune('\t')
		case 'r':
			o.WriteRune('\r')
		case 'a':
			o.WriteRune(7)
		case 'b':
			o.WriteRune(8)
		case 'f':
			o.WriteRune(12)
		case 'v':
			o.WriteRune(11)
		case 'e', 'E':
			o.WriteRune(27)
		case '\\':
			o.WriteRune('\\')
		case 'c':
			return o.String(), true
		case '0', 'x', 'u', 'U':
			b.limit("numeric escape")
		default:
			o.WriteRune('\\')
			o.WriteRune(r[i])
		}
	}
	return o.String(), false
}

func (b *bsh) printf(args []string) {
	target := ""
	if len(args) >= 2 && args[0] == "-v" {
		target = args[1]
		args = args[2:]
	}
	if len(args) > 0 && args[0] == "--" {
		args = args[1:]
	}
	if len(args) == 0 {
		b.errf("printf: usage: printf [-v var] format [arguments]")
		b.status = "2"
		return
	}
	if strings.HasPrefix(args[0], "-") && len(args[0]) > 1 {
		b.errf("printf: %s: invalid option", args[0])
		b.status = "2"
		return
	}
	if b.strAtom(args[0]) {
		b.haz("string value used as a printf format")
	}
	f, rest := []rune(args[0]), args[1:]
	var o strings.Builder
	b.status = "0"
	for {
		used := false
		for i := 0; i < len(f); i++ {
			switch f[i] {
			case '\\':
				j := i + 1
				if j < len(f) {
					if f[j] == '0' || f[j] == 'x' {
						b.limit("numeric escape in printf")
					}
					if f[j] == '"' {
						o.WriteRune('"')
						i = j
						continue
					}
					t, _ := b.escapes(string(f[i : j+1]))
					o.WriteString(t)
					i = j
				} else {
					o.WriteRune('\\')
				}
			case '%':
				i++
				if i >= len(f) {
					o.WriteRune('%')
					continue
				}
				next := func() string {
					used = true
					if len(rest) == 0 {
						return ""
					}
					x := rest[0]
					rest = rest[1:]
					return x
				}
				switch f[i] {
				case '%':
					o.WriteRune('%')
				case 's':
					o.WriteString(next())
				case 'b':
					x := next()
					if b.strAtom(x) {
						b.haz("escape sequences of a string value interpreted by printf")
					}
					t, stop := b.escapes(x)
					o.WriteString(t)
					if stop {
						goto done
					}
				case 'd', 'i':
					x := next()
					if x == "" {
						x = "0"
					}
					l, ok := b.sy.parseInt(x)
					if !ok {
						b.errf("printf: %s: invalid number", b.sy.A.show(x))
						b.status = "1"
						l = lc(0)
					}
					o.WriteString(b.sy.text(l))
				default:
					b.limit("printf %%%c", f[i])
				}
			default:
				o.WriteRune(f[i])
			}
		}
		if len(rest) == 0 || !used {
			break
		}
	}
done:
	if target != "" {
		b.setVar(target, nil, o.String(), false)
		return
	}
	b.write(1, o.String())
}

func (b *bsh) declare(name string, args []string, n *bSimple) {
	b.status = "0"
	if name == "local" && len(b.locals) == 0 {
		b.errf("local: can only be used in a function")
		b.status = "1"
		return
	}
	nameref, arr, global, print := false, false, false, false
	ro := name == "readonly"
	var plain []string
	for i, a := range args {
		if strings.HasPrefix(a, "-") || strings.HasPrefix(a, "+") {
			for _, c := range a[1:] {
				switch c {
				case 'n':
					nameref = true
				case 'a':
					arr = true
				case 'g':
					global = true
				case 'r':
					ro = true
				case 'x':
				case 'i':
					b.limit("declare -i")
				case 'A':
					b.limit("associative array")
				case 'p':
					print = true
				default:
					b.limit("%s %s", name, a)
				}
			}
			continue
		}
		plain = args[i:]
		break
	}
	if print {
		b.limit("declare -p")
	}
	var scope map[string]*bvar
	isLocal := name == "local" || (name == "declare" || name == "typeset") && len(b.locals) > 0 && !global
	if isLocal {
		scope = b.locals[len(b.locals)-1]
	}
	mk := func(nm string) *bvar {
		if scope == nil {
			if v := b.find(nm); v != nil {
				return v
			}
			v := &bvar{}
			b.glob[nm] = v
			return v
		}
		if v, ok := scope[nm]; ok {
			return v
		}
		if g := b.find(nm); g != nil && g.ro {
			b.errf("%s: %s: readonly variable", name, nm)
			b.status = "1"
			return nil
		}
		v := &bvar{}
		scope[nm] = v
		return v
	}
	for _, a := range plain {
		nm, val, has := strings.Cut(a, "=")
		if !isName(nm) {
			b.errf("%s: `%s': not a valid identifier", name, b.sy.A.show(a))
			b.status = "1"
			continue
		}
		if v := mk(nm); v != nil {
			if arr {
				v.isArr = true
				v.arr = map[int64]string{}
			}
			if has {
				if nameref {
					v.ref, v.set = val, true
				} else {
					b.setVar(nm, nil, val, false)
				}
			}
			if ro {
				v.ro = true
			}
		}
	}
	for _, w := range n.words {
		if len(w.parts) == 1 && w.parts[0].k == 'A' {
			as := w.parts[0].as
			if nameref {
				val := b.one(as.val)
				if v := mk(as.name); v != nil {
					v.ref, v.set = val, true
				}
				continue
			}
			// the value is expanded before the variable is made local
			if !as.isA {
				val := b.one(as.val)
				if v := mk(as.name); v != nil {
					if v.ro {
						b.errf("%s: readonly variable", as.name)
						b.status = "1"
						continue
					}
					var idx *Lin
					if as.idx != nil {
						l := b.arithArg(as.idx)
						idx = &l
					}
					b.setVar(as.name, idx, val, as.app)
				}
			} else if mk(as.name) != nil {
				b.doAssign(as, nil)
			}
			if ro {
				if v := b.find(as.name); v != nil {
					v.ro = true
				}
			}
		}
	}
}

func (b *bsh) read(args []string) {
	raw := false
	var vars []string
	for i := 0; i < len(args); i++ {
		a := args[i]
		if strings.HasPrefix(a, "-") && len(a) > 1 && len(vars) == 0 {
			for k := 1; k < len(a); k++ {
				switch a[k] {
				case 'r':
					raw = true
				case 'p':
					v := a[k+1:]
					if v == "" {
						i++
						if i < len(args) {
							v = args[i]
						}
					}
					if v != "" {
						b.obs.Ev = append(b.obs.Ev, "prompt "+v)
					}
					k = len(a)
				case 'e', 's':
				default:
					b.limit("read %s", a)
				}
			}
			continue
		}
		vars = append(vars, a)
	}
	if len(vars) == 0 {
		vars = []string{"REPLY"}
	}
	b.status = "0"
	line := ""
	if b.stdin.pos < len(b.stdin.lines) {
		line = b.stdin.lines[b.stdin.pos]
		b.stdin.pos++
		if strings.HasSuffix(line, "\x00") {
			line = strings.TrimSuffix(line, "\x00")
			b.status = "1"
		}
		for !raw && !hasAtom(line) && endsOddBackslash(line) && b.stdin.pos < len(b.stdin.lines) {
			line = line[:len(line)-1] + strings.TrimSuffix(b.stdin.lines[b.stdin.pos], "\x00")
			b.stdin.pos++
		}
	} else {
		b.status = "1"
	}
	ifs, _ := b.getVar("IFS", nil)
	if b.strAtom(line) {
		if !raw {
			b.haz("backslashes of a string value interpreted by read")
		}
		if ifs != "" {
			b.haz("blanks of a string value stripped by read")
		}
	}
	type ch struct {
		c   rune
		esc bool
	}
	var cs []ch
	rs := []rune(line)
	for i := 0; i < len(rs); i++ {
		if !raw && rs[i] == '\\' {
			if i+1 < len(rs) {
				i++
				cs = append(cs, ch{rs[i], true})
			}
			continue
		}
		cs = append(cs, ch{rs[i], false})
	}
	isWs := func(c ch) bool {
		return !c.esc && strings.ContainsRune(ifs, c.c) && (c.c == ' ' || c.c == '\t' || c.c == '\n')
	}
	for len(cs) > 0 && isWs(cs[0]) {
		cs = cs[1:]
	}
	for len(cs) > 0 && isWs(cs[len(cs)-1]) {
		cs = cs[:len(cs)-1]
	}
	for k, v := range vars {
		var t strings.Builder
		if k == len(vars)-1 {
			for _, c := range cs {
				t.WriteRune(c.c)
			}
		} else {
			for len(cs) > 0 && !(!cs[0].esc && strings.ContainsRune(ifs, cs[0].c)) {
				t.WriteRune(cs[0].c)
				cs = cs[1:]
			}
			for len(cs) > 0 && isWs(cs[0]) {
				cs = cs[1:]
			}
			if len(cs) > 0 && !cs[0].esc && strings.ContainsRune(ifs, cs[0].c) {
				for cs = cs[1:]; len(cs) > 0 && isWs(cs[0]); {
					cs = cs[1:]
				}
			}
		}
		if !isName(v) {
			b.errf("read: `%s': not a valid identifier", b.sy.A.show(v))
			b.status = "1"
			continue
		}
		b.setVar(v, nil, t.String(), false)
	}
}

func endsOddBackslash(s string) bool {
	n := 0
	for strings.HasSuffix(s, "\\") {
		n++
		s = s[:len(s)-1]
	}
	return n%2 == 1
}

func (b *bsh) cat(args []string) {
	b.status = "0"
	if len(args) > 0 && args[0] == "--" {
		args = args[1:]
	} else if len(args) > 0 && strings.HasPrefix(args[0], "-") && len(args[0]) > 1 {
		b.errf("cat: invalid option %s", args[0])
		b.status = "1"
		return
	}
	if len(args) == 0 {
		b.write(1, b.stdin.rest())
		return
	}
	if b.strStart(args[0]) {
		b.haz("string value in the option position of cat")
	}
	for _, a := range args {
		c, ok := b.files[a]
		if !ok {
			b.write(2, "cat: "+b.sy.A.show(a)+": No such file or directory\n")
			b.status = "1"
			continue
		}
		b.write(1, c)
	}
}

// ---- conditions

func (b *bsh) numArg(s string) (Lin, bool) {
	t := strings.Trim(s, " \t")
	return b.sy.parseInt(t)
}

func (b *bsh) binTest(l, op, r string) string {
	bb := func(x bool) string {
		if x {
			return "0"
		}
		return "1"
	}
	switch op {
	case "=", "==":
		return bb(b.sy.strEq(l, r))
	case "!=":
		return bb(!b.sy.strEq(l, r))
	case "<":
		return bb(b.sy.strCmp(l, r) < 0)
	case ">":
		return bb(b.sy.strCmp(l, r) > 0)
	case "-eq", "-ne", "-lt", "-le", "-gt", "-ge":
		for _, x := range []string{l, r} {
			if _, ok := b.numArg(x); !ok {
				b.errf("[: %s: integer expression expected", b.sy.A.show(x))
				return "2"
			}
		}
		x, _ := b.numArg(l)
		y, _ := b.numArg(r)
		c := b.sy.cmp(x, y)
		switch op {
		case "-eq":
			return bb(c == 0)
		case "-ne":
			return bb(c != 0)
		case "-lt":
			return bb(c < 0)
		case "-le":
			return bb(c <= 0)
		case "-gt":
			return bb(c > 0)
		case "-ge":
			return bb(c >= 0)
		}
	}
	return ""
}

func (b *bsh) unTest(op, a string) string {
	bb := func(x bool) string {
		if x {
			return "0"
		}
		return "1"
	}
	switch op {
	case "-z":
		return bb(b.empty(a))
	case "-n":
		return bb(!b.empty(a))
	case "-e", "-f", "-r", "-w", "-a", "-s":
		c, ok := b.files[a]
		d := false
		if b.wm != nil {
			d = b.wm.Dirs[a]
		}
		if op == "-s" {
			return bb(ok && c != "")
		}
		if op == "-f" {
			return bb(ok)
		}
		return bb(ok || d)
	case "-d":
		return bb(b.wm != nil && b.wm.Dirs[a])
	case "-x", "-h", "-L":
		return bb(b.wm != nil && b.wm.Dirs[a] && op == "-x")
	case "-v":
		_, ok := b.getVar(a, nil)
		return bb(ok)
	}
	return ""
}

var binOps = map[string]bool{"=": true, "==": true, "!=": true, "<": true, ">": true, "-eq": true, "-ne": true, "-lt": true, "-le": true, "-gt": true, "-ge": true}

func (b *bsh) test(a []string) string {
	switch len(a) {
	case 0:
		return "1"
	case 1:
		return b.unTest("-n", a[0])
	case 2:
		if a[0] == "!" {
			return flip(b.test(a[1:]))
		}
		if r := b.unTest(a[0], a[1]); r != "" && len(a[0]) == 2 {
			return r
		}
		b.errf("[: %s: unary operator expected", b.sy.A.show(a[0]))
		return "2"
	case 3:
		if binOps[a[1]] {
			return b.binTest(a[0], a[1], a[2])
		}
		if a[1] == "-a" {
			return and01(b.unTest("-n", a[0]), b.unTest("-n", a[2]))
		}
		if a[1] == "-o" {
			return or01(b.unTest("-n", a[0]), b.unTest("-n", a[2]))
		}
		if a[0] == "!" {
			return flip(b.test(a[1:]))
		}
		if a[0] == "(" && a[2] == ")" {
			return b.test(a[1:2])
		}
		b.errf("[: %s: binary operator expected", b.sy.A.show(a[1]))
		return "2"
	case 4:
		if a[0] == "!" {
			return flip(b.test(a[1:]))
		}
		if a[0] == "(" && a[3] == ")" {
			return b.test(a[1:3])
		}
	}
	// general expressions: -o lowest, then -a, then !
	pos := 0
	bad := false
	var or func() string
	prim := func() string {
		if pos >= len(a) {
			bad = true
			return "2"
		}
		if pos+2 < len(a) && binOps[a[pos+1]] {
			r := b.binTest(a[pos], a[pos+1], a[pos+2])
			pos += 3
			return r
		}
		if a[pos] == "(" {
			pos++
			r := or()
			if pos >= len(a) || a[pos] != ")" {
				bad = true
				return "2"
			}
			pos++
			return r
		}
		if pos+1 < len(a) && len(a[pos]) == 2 && a[pos][0] == '-' {
			if r := b.unTest(a[pos], a[pos+1]); r != "" {
				pos += 2
				return r
			}
		}
		r := b.unTest("-n", a[pos])
		pos++
		return r
	}
	var not func() string
	not = func() string {
		if pos < len(a) && a[pos] == "!" {
			pos++
			return flip(not())
		}
		return prim()
	}
	and := func() string {
		r := not()
		for pos < len(a) && a[pos] == "-a" {
			pos++
			r = and01(r, not())
		}
		return r
	}
	or = func() string {
		r := and()
		for pos < len(a) && a[pos] == "-o" {
			pos++
			r = or01(r, and())
		}
		return r
	}
	r := or()
	if bad || pos < len(a) {
		b.errf("[: too many arguments")
		return "2"
	}
	return r
}

func flip(s string) string {
	switch s {
	case "0":
		return "1"
	case "1":
		return "0"
	}
	return s
}
func and01(a, b string) string {
	if a == "2" || b == "2" {
		return "2"
	}
	if a == "0" && b == "0" {
		return "0"
	}
	return "1"
}
func or01(a, b string) string {
	if a == "2" || b == "2" {
		return "2"
	}
	if a == "0" || b == "0" {
		return "0"
	}
	return "1"
}

func (b *bsh) condX(x *bCondX) bool {
	switch x.op {
	case "&&":
		return b.condX(x.a) && b.condX(x.b)
	case "||":
		return b.condX(x.a) || b.condX(x.b)
	case "!":
		return !b.condX(x.a)
	case "=", "==":
		return b.matchPat(b.pattern(x.r), b.one(x.l))
	case "!=":
		return !b.matchPat(b.pattern(x.r), b.one(x.l))
	case "<":
		return b.sy.strCmp(b.one(x.l), b.one(x.r)) < 0
	case ">":
		return b.sy.strCmp(b.one(x.l), b.one(x.r)) > 0
	case "-eq", "-ne", "-lt", "-le", "-gt", "-ge":
		l, e1 := b.arith(b.one(x.l))
		r, e2 := b.arith(b.one(x.r))
		if e1 != nil || e2 != nil {
			b.errf("[[: arithmetic syntax error")
			return false
		}
		c := b.sy.cmp(l, r)
		switch x.op {
		case "-eq":
			return c == 0
		case "-ne":
			return c != 0
		case "-lt":
			return c < 0
		case "-le":
			return c <= 0
		case "-gt":
			return c > 0
		}
		return c >= 0
	}
	r := b.unTest(x.op, b.one(x.l))
	if r == "" {
		b.limit("[[ %s", x.op)
	}
	return r == "0"
}
