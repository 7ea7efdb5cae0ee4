package main

import (
	"fmt"
	"strconv"
	"strings"
)

// ---------------------------------------------------------------- model of cmd.exe's batch rules

type cNode interface{}
type cSimple struct {
	text   string
	redirs []cRedir
	line   int
}
type cRedir struct {
	op, target string
	fd         int
}
type cBlock struct {
	cmds   []cNode
	redirs []cRedir
}
type cChain struct {
	op   string
	a, b cNode
}
type cIf struct {
	not, icase bool
	kind       string // defined exist errorlevel cmp
	a, op, b   string
	then, els  cNode
	line       int
}
type cFor struct {
	opt  string // "/f" etc.
	opts string
	v    string
	in   string
	body cNode
	line int
}
type cEmpty struct{}

type cmdSyntax struct {
	msg  string
	line int
}

type cframe struct {
	args  []string
	locs  int // setlocal depth at entry
	retTo int
}

type csh struct {
	sy      *Sym
	obs     *Obs
	wm      *WorldModel
	lines   []string
	labels  map[string][]int
	pos     int // next line
	cur     int // line of the current command (1-based)
	vars    map[string]string
	names   map[string]string
	locals  []map[string]string
	delayed bool
	dstack  []bool
	frames  []cframe
	forv    map[string]string
	level   string // errorlevel
	steps   int
	echo    bool
	stdin   int
	files   map[string]string
	buf     []rune
	bi      int
	bufLine int
	depth   int
	static  bool // structure only: variables are not substituted
	out     *strings.Builder
}

type cmdGoto struct{ line int }
type cmdReturn struct{}
type cmdExit struct{ code string }

func cmdRun(script string, sy *Sym, wm *WorldModel) (obs *Obs, err error) {
	obs = &Obs{Exit: "0"}
	script = strings.ReplaceAll(script, "\r\n", "\n")
	c := &csh{sy: sy, obs: obs, wm: wm, lines: strings.Split(script, "\n"), labels: map[string][]int{}, vars: map[string]string{}, forv: map[string]string{}, level: "0", echo: true, files: map[string]string{}}
	if wm != nil {
		for k, v := range wm.Files {
			c.files[k] = v
		}
	}
	for k, v := range map[string]string{"PATH": `C:\Windows`, "OS": "Windows_NT", "COMSPEC": `C:\Windows\system32\cmd.exe`, "USERNAME": "u", "TEMP": `C:\t`, "TMP": `C:\t`, "PROMPT": "$P$G", "PATHEXT": ".EXE", "NUMBER_OF_PROCESSORS": "8"} {
		c.vars[k] = v
	}
	for i, l := range c.lines {
		if n, ok := labelOf(l); ok {
			c.labels[n] = append(c.labels[n], i)
		}
	}
	c.frames = []cframe{{}}
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case cmdExit:
				obs.Exit = x.code
			case bashLimit:
				err = bashErr{x.msg, c.cur, true}
			case cmdSyntax:
				obs.Err.WriteString(fmt.Sprintf("syntax error at line %d: %s\n", x.line, x.msg))
				obs.ErrLine = append(obs.ErrLine, x.line)
				obs.Exit = "255"
			default:
				panic(e)
			}
		}
	}()
	c.context()
	obs.Exit = c.level
	return obs, nil
}

// labelOf recognises a label line; names are compared without case.
func labelOf(l string) (string, bool) {
	t := strings.TrimLeft(l, " \t,;=")
	if !strings.HasPrefix(t, ":") {
		return "", false
	}
	t = strings.TrimLeft(t[1:], " \t,;=")
	k := strings.IndexAny(t, " \t:+,;=&|<>^")
	if k >= 0 {
		t = t[:k]
	}
	return strings.ToLower(t), t != ""
}

func (c *csh) limit(f string, a ...any) { panic(bashLimit{fmt.Sprintf(f, a...)}) }
func (c *csh) syntax(f string, a ...any) {
	panic(cmdSyntax{fmt.Sprintf(f, a...), c.bufLine})
}
func (c *csh) errf(f string, a ...any) {
	c.obs.Err.WriteString(fmt.Sprintf(f, a...) + "\n")
	c.obs.ErrLine = append(c.obs.ErrLine, c.cur)
}
func (c *csh) write(s string) {
	if c.out != nil {
		c.out.WriteString(s)
		return
	}
	c.obs.Out.WriteString(s)
	if c.obs.Out.Len() > 64*maxText {
		c.limit("the output gets too long")
	}
	for i := 0; i < strings.Count(s, "\n"); i++ {
		c.obs.OutLine = append(c.obs.OutLine, c.cur)
	}
}

// context runs commands from the current position to the end of the batch context.
func (c *csh) context() {
	for c.pos < len(c.lines) {
		if c.step() {
			return
		}
	}
}

// step reads and runs one command; true: the context ended.
func (c *csh) step() (ended bool) {
	c.steps++
	if c.steps > 30000+300*c.sy.Ref {
		panic(bashLimit{"step bound of the shell model"})
	}
	c.bufLine = c.pos + 1
	c.cur = c.pos + 1
	n := c.read()
	if n == nil {
		return false
	}
	defer func() {
		if e := recover(); e != nil {
			switch x := e.(type) {
			case cmdGoto:
				c.pos = x.line
				return
			case cmdReturn:
				ended = true
				return
			}
			panic(e)
		}
	}()
	c.exec(n)
	return false
}

// ---- reading and %-expansion

func (c *csh) nextLine() bool {
	if c.pos >= len(c.lines) {
		return false
	}
	l := c.lines[c.pos]
	c.pos++
	c.bufLine = c.pos
	if c.static {
		c.buf = append(c.buf, []rune(staticPercent(l)+"\n")...)
		return true
	}
	c.buf = append(c.buf, []rune(c.percent(l)+"\n")...)
	return true
}

func (c *csh) getv(n string) (string, bool) {
	u := strings.ToUpper(n)
	if v, ok := c.vars[u]; ok {
		return v, true
	}
	switch u {
	case "ERRORLEVEL":
		return c.level, true
	case "RANDOM", "DATE", "TIME", "CD":
		return string(c.sy.A.mk("sterm", "%"+u+"%")), true
	case "CMDCMDLINE", "CMDEXTVERSION":
		return string(c.sy.A.mk("sterm", "%"+u+"%")), true
	}
	return "", false
}

func (c *csh) setv(n, v string) {
	u := strings.ToUpper(n)
	if len(v) > maxText {
		c.limit("a variable gets more than %d characters", maxText)
	}
	if v == "" {
		delete(c.vars, u)
		return
	}
	c.vars[u] = v
}

func (c *csh) arg(k int) string {
	f := c.frames[len(c.frames)-1]
	if k == 0 {
		return "script.bat"
	}
	if k <= len(f.args) {
		return f.args[k-1]
	}
	return ""
}

func unq(s string) string {
	if len(s) >= 2 && s[0] == '"' && s[len(s)-1] == '"' {
		return s[1 : len(s)-1]
	}
	return s
}

func (c *csh) percent(l string) string {
	r := []rune(l)
	var o strings.Builder
	for i := 0; i < len(r); i++ {
		if r[i] != '%' {
			o.WriteRune(r[i])
			continue
		}
		if i+1 >= len(r) {
			break
		}
		d := r[i+1]
		switch {
		case d == '%':
			o.WriteByte('%')
			i++
			continue
		case d == '*':
			o.WriteString(strings.Join(c.frames[len(c.frames)-1].args, " "))
			i++
			continue
		case d >= '0' && d <= '9':
			o.WriteString(c.arg(int(d - '0')))
			i++
			continue
		case d == '~' && i+2 < len(r) && r[i+2] >= '0' && r[i+2] <= '9':
			o.WriteString(unq(c.arg(int(r[i+2] - '0'))))
			i += 2
			continue
		}
		// %VAR% or %VAR:...%
		j := i + 1
		for j < len(r) && r[j] != '%' && r[j] != ':' {
			j++
		}
		if j >= len(r) {
			continue // a lone percent sign is dropped
		}
		name := string(r[i+1 : j])
		v, def := c.getv(name)
		if r[j] == '%' {
			o.WriteString(v)
			i = j
			continue
		}
		if !def {
			i = j // %VAR: is removed
			continue
		}
		k := j + 1
		for k < len(r) && r[k] != '%' {
			k++
		}
		if k >= len(r) {
			continue
		}
		o.WriteString(c.modify(v, string(r[j+1:k])))
		i = k
	}
	return o.String()
}

// modify applies :~o,l or :a=b to a value.
func (c *csh) modify(v, m string) string {
	if strings.HasPrefix(m, "~") {
		a, b, has := strings.Cut(m[1:], ",")
		num := func(s string) Lin {
			s = strings.TrimSpace(s)
			if s == "" {
				return lc(0)
			}
			l, ok := c.sy.parseInt(s)
			if !ok {
				c.limit("substring bound %q", c.sy.A.show(s))
			}
			return l
		}
		n := c.sy.length(v)
		off := num(a)
		if off.isConst() && off.c < 0 {
			off = off.add(n)
			if off.isConst() && off.c < 0 {
				off = lc(0)
			}
		}
		if n.isConst() && off.isConst() && off.c > n.c {
			off = n
		}
		l := n.sub(off)
		if has {
			l = num(b)
			if l.isConst() && l.c < 0 {
				l = n.add(l).sub(off)
				if l.isConst() && l.c < 0 {
					l = lc(0)
				}
			}
		}
		return c.sy.substr(v, off, l)
	}
	a, b, has := strings.Cut(m, "=")
	if !has {
		c.limit("variable modifier %q", m)
	}
	if strings.HasPrefix(a, "*") {
		c.limit("variable modifier %q", m)
	}
	if hasAtom(v) {
		return strings.ReplaceAll(v, a, b)
	}
	// replacement ignores case
	var o strings.Builder
	for i := 0; i < len(v); {
		if a != "" && len(v)-i >= len(a) && strings.EqualFold(v[i:i+len(a)], a) {
			o.WriteString(b)
			i += len(a)
			continue
		}
		o.WriteByte(v[i])
		i++
	}
	return o.String()
}

// expand performs the execution-time !-expansion of a text.
func (c *csh) expand(t string) string {
	t = c.forVars(t)
	if !c.delayed || !strings.Contains(t, "!") {
		return t
	}
	r := []rune(t)
	var o strings.Builder
	for i := 0; i < len(r); i++ {
		switch r[i] {
		case '^':
			if i+1 < len(r) {
				i++
				o.WriteRune(r[i])
			}
		case '!':
			j := i + 1
			for j < len(r) && r[j] != '!' && r[j] != ':' {
				j++
			}
			if j < len(r) && r[j] == ':' && j+1 < len(r) && r[j+1] == '!' {
				j++ // a colon directly before ! belongs to the name
			}
			if j >= len(r) {
				continue // a lone ! is dropped
			}
			name := string(r[i+1 : j])
			if r[j] == '!' {
				if name == "" {
					i = j - 1
					if true { // !! : both are dropped
						i = j
					}
					continue
				}
				v, _ := c.getv(name)
				o.WriteString(v)
				i = j
				continue
			}
			v, def := c.getv(name)
			if !def {
				i = j
				continue
			}
			k := j + 1
			for k < len(r) && r[k] != '!' {
				k++
			}
			if k >= len(r) {
				continue
			}
			o.WriteString(c.modify(v, string(r[j+1:k])))
			i = k
		default:
			o.WriteRune(r[i])
		}
	}
	return o.String()
}

// forVars substitutes the FOR variables in force.
func (c *csh) forVars(t string) string {
	if len(c.forv) == 0 || !strings.Contains(t, "%") {
		return t
	}
	r := []rune(t)
	var o strings.Builder
	for i := 0; i < len(r); i++ {
		if r[i] == '%' && i+1 < len(r) {
			if v, ok := c.forv[string(r[i+1])]; ok {
				o.WriteString(v)
				i++
				continue
			}
			if r[i+1] == '~' && i+2 < len(r) {
				if v, ok := c.forv[string(r[i+2])]; ok {
					o.WriteString(unq(v))
					i += 2
					continue
				}
			}
		}
		o.WriteRune(r[i])
	}
	return o.String()
}

// ---- parsing

func (c *csh) read() cNode {
	c.buf, c.bi = c.buf[:0], 0
	raw := c.lines[c.pos]
	if t := strings.TrimLeft(raw, " \t,;="); strings.HasPrefix(t, ":") {
		c.pos++
		return nil
	}
	c.nextLine()
	n := c.parseChain(0)
	// anything left up to the end of the line
	if c.bi < len(c.buf) && c.buf[c.bi] != '\n' {
		if c.buf[c.bi] == ')' {
			return n // an unmatched ) makes cmd ignore the rest of the line
		}
		c.syntax("%q was unexpected", string(c.buf[c.bi]))
	}
	return n
}

func (c *csh) pk() rune {
	if c.bi < len(c.buf) {
		return c.buf[c.bi]
	}
	return 0
}

func (c *csh) ws() {
	for strings.ContainsRune(" \t,;=", c.pk()) && c.bi < len(c.buf) {
		c.bi++
	}
}

func (c *csh) parseChain(depth int) cNode {
	a := c.parseOr(depth)
	for {
		if c.pk() == '&' && !c.at("&&") {
			c.bi++
			c.ws()
			if c.pk() == '\n' || c.pk() == ')' && depth > 0 {
				return a
			}
			a = &cChain{"&", a, c.parseOr(depth)}
			continue
		}
		return a
	}
}
func (c *csh) parseOr(depth int) cNode {
	a := c.parseAnd(depth)
	for c.at("||") {
		c.bi += 2
		a = &cChain{"||", a, c.parseAnd(depth)}
	}
	return a
}
func (c *csh) parseAnd(depth int) cNode {
	a := c.parsePipe(depth)
	for c.at("&&") {
		c.bi += 2
		a = &cChain{"&&", a, c.parsePipe(depth)}
	}
	return a
}
func (c *csh) parsePipe(depth int) cNode {
	a := c.parseCmd(depth)
	for c.pk() == '|' && !c.at("||") {
		c.bi++
		a = &cChain{"|", a, c.parseCmd(depth)}
	}
	return a
}

func (c *csh) at(s string) bool {
	rs := []rune(s)
	if c.bi+len(rs) > len(c.buf) {
		return false
	}
	for k, x := range rs {
		if c.buf[c.bi+k] != x {
			return false
		}
	}
	return true
}

// wordAt gives the keyword candidate at the current position.
func (c *csh) wordAt() string {
	k := c.bi
	for k < len(c.buf) && !strings.ContainsRune(" \t,;=\n&|<>()", c.buf[k]) {
		k++
	}
	return strings.ToLower(string(c.buf[c.bi:k]))
}

func (c *csh) parseCmd(depth int) cNode {
	c.ws()
	for c.pk() == '@' {
		c.bi++
		c.ws()
	}
	switch c.pk() {
	case '\n', 0:
		return &cEmpty{}
	case ')':
		if depth == 0 {
			return &cEmpty{}
		}
		c.syntax("unexpected )")
	case '&', '|':
		c.syntax("%q was unexpected", string(c.pk()))
	case '(':
		return c.parseBlock(depth)
	}
	switch w := c.wordAt(); w {
	case "if":
		return c.parseIf(depth)
	case "for":
		return c.parseFor(depth)
	case "rem":
		for c.pk() != '\n' && c.pk() != 0 {
			c.bi++
		}
		return &cEmpty{}
	}
	return c.parseSimple(depth)
}

// parseBlock parses ( ... ) over several lines; every line is %-expanded while it is read.
func (c *csh) parseBlock(depth int) cNode {
	open := c.bufLine
	c.bi++
	b := &cBlock{}
	afterLabel := false
	for {
		// skip blanks and newlines
		for c.bi < len(c.buf) && strings.ContainsRune(" \t,;=\n", c.pk()) {
			c.bi++
		}
		if c.bi >= len(c.buf) {
			// at the start of a new line: labels are recognised on the raw text
			if c.pos < len(c.lines) {
				t := strings.TrimLeft(c.lines[c.pos], " \t,;=")
				if strings.HasPrefix(t, ":") {
					c.bufLine = c.pos + 1
					if afterLabel {
						c.syntax("two consecutive label lines inside a block")
					}
					afterLabel = true
					c.pos++
					continue
				}
			}
			if !c.nextLine() {
				c.bufLine = open
				c.syntax("the block opened here is never closed")
			}
			continue
		}
		if c.pk() == ')' {
			if afterLabel {
				c.syntax("a label is directly followed by ) inside a block")
			}
			c.bi++
			b.redirs = c.parseRedirs()
			return b
		}
		afterLabel = false
		ln := c.bufLine
		n := c.parseChain(depth + 1)
		_ = ln
		b.cmds = append(b.cmds, n)
		c.blanks()
		if c.bi < len(c.buf) && c.pk() != '\n' && c.pk() != ')' {
			c.syntax("%q was unexpected", string(c.pk()))
		}
	}
}

func (c *csh) blanks() {
	for c.bi < len(c.buf) && (c.pk() == ' ' || c.pk() == '\t') {
		c.bi++
	}
}

func (c *csh) parseRedirs() []cRedir {
	var rs []cRedir
	for {
		c.blanks()
		k := c.bi
		fd := -1
		if k < len(c.buf) && c.buf[k] >= '0' && c.buf[k] <= '9' {
			fd = int(c.buf[k] - '0')
			k++
		}
		if k >= len(c.buf) || c.buf[k] != '>' && c.buf[k] != '<' {
			return rs
		}
		c.bi = k
		rs = append(rs, c.redir(fd))
	}
}

func (c *csh) redir(fd int) cRedir {
	op := string(c.pk())
	c.bi++
	if op == ">" && c.pk() == '>' {
		op = ">>"
		c.bi++
	}
	if c.pk() == '&' {
		op += "&"
		c.bi++
	}
	c.blanks()
	var t strings.Builder
	q := false
	for c.bi < len(c.buf) && c.pk() != '\n' {
		x := c.pk()
		if x == '"' {
			q = !q
		} else if !q && strings.ContainsRune(" \t,;=&|<>()", x) {
			break
		}
		t.WriteRune(x)
		c.bi++
	}
	if t.Len() == 0 {
		c.syntax("redirection without target")
	}
	return cRedir{op, t.String(), fd}
}

func (c *csh) parseSimple(depth int) cNode {
	s := &cSimple{line: c.bufLine}
	var o strings.Builder
	q := false
	for {
		if c.bi >= len(c.buf) {
			break
		}
		x := c.pk()
		if x == '\n' {
			break
		}
		if x == '"' {
			q = !q
		}
		if !q {
			switch x {
			case '^':
				c.bi++
				if c.pk() == '\n' {
					// line continuation: the next line is appended; its first character is escaped
					c.bi++
					if c.bi >= len(c.buf) && !c.nextLine() {
						continue
					}
					if c.pk() == '\n' {
						// caret, newline, newline: a literal line feed
						o.WriteRune('\n')
						c.bi++
						if c.bi >= len(c.buf) && depth > 0 {
							goto done
						}
						goto done
					}
					o.WriteRune(c.pk())
					c.bi++
					continue
				}
				if c.bi < len(c.buf) {
					o.WriteRune('^')
					o.WriteRune(c.pk())
					c.bi++
				}
				continue
			case '&', '|':
				goto done
			case '<', '>':
				fd := -1
				t := o.String()
				if n := len(t); n > 0 && t[n-1] >= '0' && t[n-1] <= '9' && (n == 1 || strings.ContainsRune(" \t,;=", rune(t[n-2]))) {
					fd = int(t[n-1] - '0')
					o.Reset()
					o.WriteString(t[:n-1])
				}
				s.redirs = append(s.redirs, c.redir(fd))
				continue
			case ')':
				if depth > 0 {
					goto done
				}
			}
		}
		o.WriteRune(x)
		c.bi++
	}
done:
	s.text = o.String()
	return s
}

// ifTok reads one operand of IF.
func (c *csh) ifTok() string {
	c.ws()
	var o strings.Builder
	q := false
	for c.bi < len(c.buf) && c.pk() != '\n' {
		x := c.pk()
		if x == '"' {
			q = !q
		}
		if !q && strings.ContainsRune(" \t,;=&|<>", x) {
			break
		}
		if !q && x == '(' && o.Len() > 0 && false {
			break
		}
		if !q && x == '^' {
			c.bi++
			if c.bi < len(c.buf) {
				o.WriteRune(c.pk())
				c.bi++
			}
			continue
		}
		o.WriteRune(x)
		c.bi++
	}
	return o.String()
}

func (c *csh) parseIf(depth int) cNode {
	n := &cIf{line: c.bufLine}
	c.bi += 2
	for {
		c.ws()
		w := c.wordAt()
		if w == "/i" {
			c.bi += 2
			n.icase = true
			continue
		}
		if w == "not" {
			c.bi += 3
			n.not = true
			continue
		}
		break
	}
	switch w := c.wordAt(); w {
	case "defined", "exist", "errorlevel":
		c.bi += len(w)
		n.kind = w
		n.a = c.ifTok()
	default:
		n.kind = "cmp"
		n.a = c.ifTok()
		c.blanks()
		if c.at("==") {
			c.bi += 2
			n.op = "=="
		} else {
			n.op = strings.ToLower(c.ifTok())
			switch n.op {
			case "equ", "neq", "lss", "leq", "gtr", "geq":
			default:
				c.syntax("%q was unexpected in IF", n.op)
			}
		}
		n.b = c.ifTok()
	}
	c.ws()
	if c.pk() == '\n' || c.pk() == 0 {
		c.syntax("IF without a command")
	}
	n.then = c.parseIfBody(depth)
	c.blanks()
	if c.wordAt() == "else" {
		if _, ok := n.then.(*cBlock); ok {
			c.bi += 4
			c.ws()
			if c.pk() == '\n' || c.pk() == 0 {
				c.syntax("ELSE without a command")
			}
			n.els = c.parseChainNoAmp(depth)
		}
	}
	return n
}

func (c *csh) parseIfBody(depth int) cNode {
	c.ws()
	if c.pk() == '(' {
		return c.parseBlock(depth)
	}
	return c.parseChain(depth)
}

func (c *csh) parseChainNoAmp(depth int) cNode {
	c.ws()
	if c.pk() == '(' {
		return c.parseBlock(depth)
	}
	return c.parseChain(depth)
}

func (c *csh) parseFor(depth int) cNode {
	n := &cFor{line: c.bufLine}
	c.bi += 3
	c.ws()
	if c.pk() == '/' {
		n.opt = c.wordAt()
		c.bi += len(n.opt)
		c.ws()
		if n.opt == "/f" && c.pk() == '"' {
			c.bi++
			k := c.bi
			for c.bi < len(c.buf) && c.pk() != '"' && c.pk() != '\n' {
				c.bi++
			}
			n.opts = string(c.buf[k:c.bi])
			c.bi++
			c.ws()
		}
	}
	if c.pk() != '%' || c.bi+1 >= len(c.buf) {
		c.syntax("FOR without a variable")
	}
	n.v = string(c.buf[c.bi+1])
	c.bi += 2
	c.ws()
	if c.wordAt() != "in" {
		c.syntax("FOR without IN")
	}
	c.bi += 2
	c.ws()
	if c.pk() != '(' {
		c.syntax("FOR without (")
	}
	c.bi++
	k := c.bi
	q := byte(0)
	for c.bi < len(c.buf) {
		x := c.pk()
		if x == '\n' {
			c.syntax("FOR set over several lines")
		}
		if q == 0 && x == '"' {
			q = '"'
		} else if q == 0 && x == '\'' {
			q = '\''
		} else if q != 0 && x == rune(q) {
			q = 0
		} else if q == 0 && x == ')' {
			break
		}
		c.bi++
	}
	n.in = string(c.buf[k:c.bi])
	c.bi++
	c.ws()
	if c.wordAt() != "do" {
		c.syntax("FOR without DO")
	}
	c.bi += 2
	c.ws()
	if c.pk() == '\n' || c.pk() == 0 {
		c.syntax("FOR without a command")
	}
	n.body = c.parseIfBody(depth)
	return n
}

// ---- execution

func (c *csh) exec(n cNode) {
	c.steps++
	if c.steps > 30000+300*c.sy.Ref {
		panic(bashLimit{"step bound of the shell model"})
	}
	switch n := n.(type) {
	case *cEmpty:
	case *cBlock:
		if len(n.redirs) > 0 {
			c.limit("redirected block")
		}
		for _, x := range n.cmds {
			c.exec(x)
		}
	case *cChain:
		switch n.op {
		case "&":
			c.exec(n.a)
			c.exec(n.b)
		case "&&":
			c.exec(n.a)
			if c.level == "0" {
				c.exec(n.b)
			}
		case "||":
			c.exec(n.a)
			if c.level != "0" {
				c.exec(n.b)
			}
		default:
			c.limit("pipe")
		}
	case *cIf:
		c.cur = n.line
		if c.cond(n) != n.not {
			c.exec(n.then)
		} else if n.els != nil {
			c.exec(n.els)
		}
	case *cFor:
		c.cur = n.line
		c.forLoop(n)
	case *cSimple:
		c.cur = n.line
		c.simple(n)
	default:
		panic(fmt.Sprintf("cmd node %T", n))
	}
}

func (c *csh) cond(n *cIf) bool {
	a := c.expand(n.a)
	switch n.kind {
	case "defined":
		_, ok := c.getv(a)
		return ok
	case "exist":
		_, ok := c.files[unq(a)]
		return ok
	case "errorlevel":
		l, ok1 := c.sy.parseInt(c.level)
		k, ok2 := c.sy.parseInt(a)
		if !ok1 || !ok2 {
			c.limit("if errorlevel")
		}
		return c.sy.cmp(l, k) >= 0
	}
	b := c.expand(n.b)
	if n.op != "==" {
		la, ok1 := c.number(a)
		lb, ok2 := c.number(b)
		if ok1 && ok2 {
			s := c.sy.cmp(la, lb)
			switch n.op {
			case "equ":
				return s == 0
			case "neq":
				return s != 0
			case "lss":
				return s < 0
			case "leq":
				return s <= 0
			case "gtr":
				return s > 0
			case "geq":
				return s >= 0
			}
		}
	}
	if n.icase && !hasAtom(a) && !hasAtom(b) {
		a, b = strings.ToLower(a), strings.ToLower(b)
	}
	qa, qb := a, b
	if len(a) >= 2 && len(b) >= 2 && a[0] == '"' && b[0] == '"' && a[len(a)-1] == '"' && b[len(b)-1] == '"' {
		qa, qb = a[1:len(a)-1], b[1:len(b)-1]
	}
	switch n.op {
	case "==", "equ":
		return c.sy.strEq(qa, qb)
	case "neq":
		return !c.sy.strEq(qa, qb)
	}
	// ordering of texts: by text, not by number
	s := c.textCmp(qa, qb)
	switch n.op {
	case "lss":
		return s < 0
	case "leq":
		return s <= 0
	case "gtr":
		return s > 0
	}
	return s >= 0
}

func (c *csh) textCmp(a, b string) int {
	return c.sy.strCmp(a, b)
}

// number: what IF takes for a number.
func (c *csh) number(s string) (Lin, bool) {
	if l, ok := c.sy.parseInt(s); ok {
		t := strings.TrimPrefix(s, "-")
		if len(t) > 1 && t[0] == '0' {
			v, err := strconv.ParseInt(s, 0, 64)
			if err != nil {
				return Lin{}, false
			}
			return lc(c.sy.wrap(v)), true
		}
		return l, true
	}
	return Lin{}, false
}

func (c *csh) forLoop(n *cFor) {
	if n.opt != "/f" {
		c.limit("for %s", n.opt)
	}
	in := strings.TrimSpace(n.in)
	full := ""
	switch {
	case len(in) >= 2 && in[0] == '"' && in[len(in)-1] == '"':
		t := c.expand(in)
		full = t[1 : len(t)-1]
	default:
		c.limit("for /f over %s", c.sy.A.show(in))
	}
	delims := " \t"
	if strings.Contains(n.opts, "delims=") {
		i := strings.Index(n.opts, "delims=")
		delims = n.opts[i+7:]
		if j := strings.IndexByte(delims, ' '); j >= 0 && j < len(delims)-1 {
			delims = delims[:j]
		}
	}
	if strings.Contains(n.opts, "tokens=") || strings.Contains(n.opts, "usebackq") || strings.Contains(n.opts, "skip=") {
		c.limit("for /f options %q", n.opts)
	}
	old, had := c.forv[n.v]
	for _, l := range strings.Split(full, "\n") {
		if l == "" || strings.HasPrefix(l, ";") {
			continue
		}
		if delims != "" {
			l = strings.TrimLeft(l, delims)
			if k := strings.IndexAny(l, delims); k >= 0 {
				l = l[:k]
			}
			if l == "" {
				continue
			}
		}
		c.forv[n.v] = l
		c.exec(n.body)
	}
	if had {
		c.forv[n.v] = old
	} else {
		delete(c.forv, n.v)
	}
}

func splitArgs(s string) []string {
	var r []string
	var o strings.Builder
	q, began := false, false
	for _, x := range s {
		if x == '"' {
			q = !q
			began = true
		} else if !q && strings.ContainsRune(" \t,;=", x) {
			if began {
				r = append(r, o.String())
				o.Reset()
				began = false
			}
			continue
		}
		began = true
		o.WriteRune(x)
	}
	if began {
		r = append(r, o.String())
	}
	return r
}

func (c *csh) gotoLabel(l string) int {
	l = strings.ToLower(strings.TrimPrefix(l, ":"))
	at := c.labels[l]
	if len(at) == 0 {
		return -1
	}
	for _, k := range at {
		if k >= c.pos {
			return k
		}
	}
	return at[0]
}

func unescapeCaret(t string, expanded bool) string {
	var o strings.Builder
	q := false
	r := []rune(t)
	for i := 0; i < len(r); i++ {
		if r[i] == '"' {
			q = !q
		}
		if r[i] == '^' && !q && i+1 < len(r) {
			i++
		}
		o.WriteRune(r[i])
	}
	return o.String()
}

func (c *csh) simple(n *cSimple) {
	if len(n.redirs) > 0 {
		c.limit("redirection %s", c.sy.A.show(n.redirs[0].target))
	}
	// escapes of the parser are removed first, then run-time expansion
	t := n.text
	if strings.Contains(t, "^") {
		t = unescapeCaret(t, false)
	}
	// LF definitions keep their line feed
	t = c.expand(t)
	name, rest := t, ""
	if k := strings.IndexAny(t, " \t,;=/("); k > 0 {
		name, rest = t[:k], t[k:]
		if strings.HasPrefix(rest, "/") || strings.HasPrefix(rest, "(") {
			if !strings.EqualFold(name, "echo") && !strings.EqualFold(name, "set") && !strings.EqualFold(name, "exit") {
				if k2 := strings.IndexAny(t, " \t,;="); k2 > 0 {
					name, rest = t[:k2], t[k2:]
				} else {
					name, rest = t, ""
				}
			}
		}
	}
	lname := strings.ToLower(name)
	if strings.HasPrefix(lname, "echo.") || strings.HasPrefix(lname, "echo:") {
		c.write(t[5:] + "\n")
		return
	}
	if lname == "echo" && strings.HasPrefix(rest, "(") {
		c.write(rest[1:] + "\n")
		return
	}
	switch lname {
	case "echo":
		if strings.HasPrefix(rest, "/") {
			c.limit("echo/")
		}
		arg := rest
		if arg != "" {
			arg = arg[1:]
		}
		switch strings.ToLower(strings.TrimSpace(arg)) {
		case "":
			c.write("ECHO is off.\n")
		case "on":
			c.echo = true
		case "off":
			c.echo = false
		case "/?":
			c.write("Displays messages, or turns command-echoing on or off.\n")
		default:
			c.write(arg + "\n")
		}
	case "set":
		c.set(rest)
	case "setlocal":
		cp := map[string]string{}
		for k, v := range c.vars {
			cp[k] = v
		}
		c.locals = append(c.locals, cp)
		c.dstack = append(c.dstack, c.delayed)
		switch strings.ToLower(strings.TrimSpace(rest)) {
		case "enabledelayedexpansion", "enableextensions enabledelayedexpansion":
			c.delayed = true
		case "disabledelayedexpansion":
			c.delayed = false
		}
	case "endlocal":
		if k := len(c.locals); k > 0 && k > c.frames[len(c.frames)-1].locs {
			c.vars = c.locals[k-1]
			c.delayed = c.dstack[k-1]
			c.locals, c.dstack = c.locals[:k-1], c.dstack[:k-1]
		}
	case "goto":
		f := splitArgs(rest)
		if len(f) == 0 {
			c.errf("The syntax of the command is incorrect.")
			panic(cmdExit{"1"})
		}
		if strings.EqualFold(f[0], ":eof") {
			c.pos = len(c.lines)
			panic(cmdReturn{})
		}
		k := c.gotoLabel(f[0])
		if k < 0 {
			c.errf("The system cannot find the batch label specified - %s", c.sy.A.show(f[0]))
			panic(cmdReturn{})
		}
		panic(cmdGoto{k})
	case "call":
		c.call(rest)
	case "exit":
		f := splitArgs(rest)
		b := false
		code := c.level
		for _, a := range f {
			if strings.EqualFold(a, "/b") {
				b = true
			} else {
				code = a
			}
		}
		if l, ok := c.sy.parseInt(code); ok {
			code = c.sy.text(l)
		}
		c.level = code
		if !b {
			panic(cmdExit{code})
		}
		panic(cmdReturn{})
	case "cls", "title", "chcp", "color", "pause":
		c.limit("command %s", lname)
	case "(":
	default:
		if strings.HasPrefix(t, ":") {
			return
		}
		c.errf("'%s' is not recognized as an internal or external command", c.sy.A.show(name))
		c.level = "9009"
	}
}

func (c *csh) call(rest string) {
	rest = strings.TrimLeft(rest, " \t,;=")
	// CALL expands % once more
	rest = c.percent(rest)
	f := splitArgs(rest)
	if len(f) == 0 {
		return
	}
	if !strings.HasPrefix(f[0], ":") {
		c.errf("'%s' is not recognized as an internal or external command", c.sy.A.show(f[0]))
		c.level = "9009"
		return
	}
	if strings.EqualFold(f[0], ":eof") {
		return
	}
	// the label search of CALL also starts at the current position
	k := c.gotoLabel(f[0])
	if k < 0 {
		c.errf("The system cannot find the batch label specified - %s", c.sy.A.show(f[0]))
		c.level = "1"
		return
	}
	if len(c.frames) > 40 {
		c.limit("call depth of the shell model")
	}
	save, cur, buf, bi, bl := c.pos, c.cur, c.buf, c.bi, c.bufLine
	forv := c.forv
	c.forv = map[string]string{}
	c.frames = append(c.frames, cframe{args: f[1:], locs: len(c.locals)})
	c.buf = nil
	c.pos = k
	c.context()
	fr := c.frames[len(c.frames)-1]
	for len(c.locals) > fr.locs {
		n := len(c.locals)
		c.vars, c.delayed = c.locals[n-1], c.dstack[n-1]
		c.locals, c.dstack = c.locals[:n-1], c.dstack[:n-1]
	}
	c.frames = c.frames[:len(c.frames)-1]
	c.pos, c.cur, c.buf, c.bi, c.bufLine = save, cur, buf, bi, bl
	c.forv = forv
}

func (c *csh) set(rest string) {
	t := strings.TrimLeft(rest, " \t,;=")
	low := strings.ToLower(t)
	if strings.HasPrefix(low, "/a") {
		e := strings.TrimSpace(t[2:])
		e = strings.ReplaceAll(e, `"`, "")
		env := &arithEnv{sy: c.sy}
		env.get = func(n string, idx *Lin) string {
			v, _ := c.getv(n)
			if v == "" {
				return ""
			}
			if _, ok := c.sy.parseInt(v); !ok {
				if hasAtom(v) {
					c.limit("set /A reads the text %q", c.sy.A.show(v))
				}
				k := 0
				for k < len(v) && (v[k] >= '0' && v[k] <= '9' || k == 0 && v[k] == '-') {
					k++
				}
				if k == 0 {
					return "0"
				}
				return v[:k]
			}
			return v
		}
		env.set = func(n string, idx *Lin, v string) { c.setv(n, v) }
		if _, err := env.eval(e); err != nil {
			c.errf("set /A %s: %v", c.sy.A.show(e), err)
			c.level = "1"
		}
		return
	}
	if strings.HasPrefix(low, "/p") {
		e := strings.TrimSpace(t[2:])
		e = unqLast(e)
		n, p, _ := strings.Cut(e, "=")
		c.obs.Ev = append(c.obs.Ev, "prompt "+p)
		l := ""
		if c.wm != nil && c.stdin < len(c.wm.Stdin) {
			l = c.wm.Stdin[c.stdin]
		}
		c.stdin++
		if l != "" {
			c.setv(n, l)
		}
		return
	}
	t = unqLast(t)
	n, v, ok := strings.Cut(t, "=")
	if !ok {
		if n == "" {
			c.limit("set listing")
		}
		c.limit("set %s", c.sy.A.show(t))
	}
	if n == "" {
		c.errf("The syntax of the command is incorrect.")
		c.level = "1"
		return
	}
	c.setv(n, v)
}

// unqLast: set "a=b" takes the text between the first and the last quote.
func unqLast(t string) string {
	if strings.HasPrefix(t, `"`) {
		if k := strings.LastIndexByte(t, '"'); k > 0 {
			return t[1:k]
		}
		return t[1:]
	}
	return t
}
