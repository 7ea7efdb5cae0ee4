package main

import (
	"fmt"
	"math/rand"
	"sort"
	"strings"
	"unicode/utf8"
)

// ---------------------------------------------------------------- C11: the tokenizer

type lexTok struct {
	Name     string
	V        string
	Row, Col int64
}

type lexRes struct {
	Kind string // tokens | error | panic | undecided ...
	Toks []lexTok
	Err  string
	Fn   map[*cfunc]int
}

// lexRun interprets lexer.Tokenize on a text.
func (a *Anchors) lexRun(src string) *lexRes {
	in := newInterp(a.w, newAtoms())
	in.maxSteps += 20_000 * len(src)
	r := runPath(in, func(in *Interp) Value { return in.callFn(a.tokenize, []Value{S(src)}, nil) })
	res := &lexRes{Fn: in.funcs}
	switch {
	case r.Panic != nil:
		res.Kind, res.Err = "panic", r.Panic.msg
		return res
	case r.Abort != nil:
		res.Kind, res.Err = r.Abort.kind, r.Abort.msg
		return res
	}
	t, ok := r.Result.(Tuple)
	if !ok || len(t) != 2 {
		res.Kind = "undecided"
		return res
	}
	if e, ok := t[1].(Iface); ok && e.t != nil {
		res.Kind = "error"
		res.Err = in.fmtVal(e.t, e.v, 'v').flat()
		return res
	}
	res.Kind = "tokens"
	sl, _ := t[0].(Slice)
	for _, v := range sl {
		if p, ok := v.(*Value); ok {
			v = *p
		}
		s := v.(Struct)
		n, ok := a.constName[s[a.fType].(int64)]
		if !ok {
			n = fmt.Sprint(s[a.fType])
		}
		res.Toks = append(res.Toks, lexTok{n, asStr(s[a.fValue]).flat(), s[a.fRow].(int64), s[a.fCol].(int64)})
	}
	return res
}

func refTokName(t Tok) string {
	switch t.Kind {
	case tEOF:
		return "EOF"
	case tNewline:
		return "NEWLINE"
	case tIdent:
		return "IDENTIFIER"
	case tInt:
		return "NUMBER_LITERAL"
	case tString:
		return "STRING_LITERAL"
	case tBool:
		return "BOOL_LITERAL"
	case tNil:
		return "NIL_LITERAL"
	}
	return repoTokenName[t.V]
}

// lexOne is the obligation for one text.
func (c *Ctx) lexOne(key, src string) {
	neutral := ""
	want, werr := refLexN(src, false, &neutral)
	if neutral != "" {
		c.count("texts outside the token grammar (skipped)", 1)
		return
	}
	c.obligation(1)
	got := c.a.lexRun(src)
	c.analysed(got.Fn)
	bad := func(f string, a ...any) {
		what := fmt.Sprintf(f, a...)
		c.violate(key, what, fmt.Sprintf("text %q\n%s\nlexer.Tokenize at %s", src, what, c.w.pos(c.a.tokenize.Pos())))
	}
	switch {
	case got.Kind != "error" && got.Kind != "tokens":
		bad("Tokenize: %s: %s", got.Kind, got.Err)
		return
	case werr != nil && got.Kind == "tokens":
		bad("no error although the text has an %v", werr)
		return
	case werr == nil && got.Kind == "error":
		bad("error %q for legal text", got.Err)
		return
	case werr != nil:
		if got.Err == "" {
			bad("empty error")
		}
		return
	}
	for i := 0; i < len(want) || i < len(got.Toks); i++ {
		if i >= len(want) {
			bad("surplus token %s %q", got.Toks[i].Name, got.Toks[i].V)
			return
		}
		w := want[i]
		if i >= len(got.Toks) {
			bad("missing token %s %q", refTokName(w), w.V)
			return
		}
		g := got.Toks[i]
		if g.Name != refTokName(w) || w.Kind != tEOF && g.V != w.V {
			bad("token %d is %s %q, must be %s %q", i, g.Name, g.V, refTokName(w), w.V)
			return
		}
		nonASCII := false
		if ls := strings.LastIndexByte(strings.ReplaceAll(src, "\r\n", "\n")[:w.Off], '\n') + 1; true {
			for _, b := range []byte(strings.ReplaceAll(src, "\r\n", "\n")[ls:w.Off]) {
				nonASCII = nonASCII || b >= utf8.RuneSelf
			}
		}
		if g.Row != int64(w.Row) || g.Col != int64(w.Col) && !nonASCII {
			if w.Kind == tEOF {
				continue
			}
			bad("token %d (%s %q) is reported at %d:%d, its first character is at %d:%d", i, g.Name, g.V, g.Row, g.Col, w.Row, w.Col)
			return
		}
	}
}

var lexemes = func() []string {
	r := append([]string{}, refOps...)
	for k := range repoTokenName {
		if isKeyword(k) {
			r = append(r, k)
		}
	}
	r = append(r, "true", "false", "nil", "a", "_", "x1", "trueish", "falsey", "nilx", "format", "iff", "ifx", "True", "lenx", "printer", "inty", "forx", "a_b", "A9_z", "Nil", "true1", "true_", "_true",
		"0", "7", "42", "-1", "-42", "007", "9223372036854775807", `""`, `"a"`, `"a b"`, `"//x"`, `"/*x*/"`, "`r`", "``", `"\\"`, `"\""`, `"q\n"`, "`a\\`", "`a\nb`", "`\"`", `"`+"`"+`"`, `"é"`, "`é`")
	return sortStrings(r)
}()

var lexSeps = []string{"", " ", "\t", "  ", "\n", "\r\n", "/**/", "/* c */", "/* a\n b */", "//c\n", "// x\r\n", "/*a*//*b*/", "/***/", "/*/*/", " /* \" */ ", "/*//*/", "//*\n", "/* é */", "//\n", "\n\n", "/*\r\n*/"}

func init() {
	checks["C11"] = &propCheck{level: "other",
		rule: "lexer.Tokenize is interpreted abstractly on texts that represent every pair of lexeme classes and separators, every string-literal character, escape and byte class, and seeded token sequences; types, values, rows and columns are compared with an independent tokenizer of the grammar; unterminated strings and unknown bytes must be errors",
		run:  c11}
}

func c11(c *Ctx) {
	// every pair of lexemes, every separator
	for _, x := range lexemes {
		x := x
		c.do("pairs/"+x, func() {
			for _, y := range lexemes {
				for si, s := range lexSeps {
					if c.quick() && si > 0 && (len(x)*31+len(y)*7+int(y[0])*3+int(x[0])+si+int(c.seed))%6 != 0 {
						continue
					}
					c.lexOne("pair/"+fmt.Sprintf("%q", x+s+y), x+s+y)
				}
			}
		})
	}
	c.do("scale", func() { c.scaleLex() })
	// separators before, between and after, and combined
	c.do("seps", func() {
		for _, s1 := range lexSeps {
			for _, s2 := range lexSeps {
				for _, t := range []string{"x", "1", `"s"`, "+", "/", "*", "-", "-1"} {
					c.lexOne(fmt.Sprintf("seps/%q", s1+s2+t), s1+s2+t)
					c.lexOne(fmt.Sprintf("seps/%q", t+s1+s2), t+s1+s2)
					c.lexOne(fmt.Sprintf("seps/%q", t+s1+"y"+s2+t), t+s1+"y"+s2+t)
				}
			}
		}
	})
	// comments end at their first terminator
	for _, s := range []string{"a/*1*/b/*2*/c", "/*1*/a/*2*/", "/*\n*/a/*\n*/b", "a//x/*\nb*/c", "a/*//*/b", "a/*x*/*/b", "a/**/*b/**/", "//\n//\na", "a //", "a /**/", "/*a*/ /*b*/ // c\n d /*e*/ f", "/* \"x */ y \" */ z \"", "x /* ` */ y /* ` */ z", "\"/*\" a \"*/\"", "\"//\"\na", "`/*\n`a`*/`", "a /* b\nc */ d\ne", "a /* b\n\n\nc */ d /* e */ f", "/*\n*/ a", "a\n/*x*/ b /*y*/ c", "  /*x*/a", "/* x\r\ny */ a\r\nb", "/*\t*/a", "a/b", "a/ *b", "a * /b", "/ /", "a//b", "a/*b", "/*/", "/**", "///*\n*/"} {
		s := s
		c.do("comment", func() { c.lexOne(fmt.Sprintf("comment/%q", s), s) })
	}
	// every byte: alone, between tokens, in comments and in both kinds of string
	for b := 0; b < 256; b++ {
		b := b
		if b == 0xf4 { // lead byte of the code points that stand for opaque values in the interpreter
			continue
		}
		c.do("byte", func() {
			ch := string([]byte{byte(b)})
			for _, f := range []string{"%s", "a%sb", "1%s2", "x %s y", "\"%s\"", "\"a%sb\" c", "`%s`", "`a%sb` c", "/*%s*/ a", "//%s\na", "a\n%s", "(%s)", "\"\\%s\"", "\"\\%sx\" y", "`\\%s`", "\"%[1]s%[1]s\"", "\"%s", "`%s", "=%s", "%s="} {
				s := fmt.Sprintf(f, ch)
				c.lexOne(fmt.Sprintf("byte/%02x/%q", b, s), s)
			}
			for _, f := range []string{`"\x%02x"`, `"\%03o"`, `"a\x%02Xb" c`, `"\u00%02x"`, `"\U000000%02x"`, `"\u%02x9f"`} {
				s := fmt.Sprintf(f, b)
				c.lexOne(fmt.Sprintf("esc/%q", s), s)
			}
		})
	}
	// escapes
	for _, s := range []string{`"\a\b\f\n\r\t\v\\\""`, `"\'"`, `"\x4"`, `"\x"`, `"\xg1"`, `"\u12"`, `"\u123g"`, `"\ud800"`, `"\U00110000"`, `"\U0010ffff"`, `"\U0001F600"`, `"\400"`, `"\18"`, `"\0"`, `"\777"`, `"\377x"`, `"\q"`, `"\z"`, `"\$"`, "\"\\`\"", `"a\\"b"`, `"a\"b"`, `"\\\""`, `"\\\\"`, `"\\\\\""`, `"abc`, `"abc\"`, "`abc", `"`, "`", `""`, "``", `"a""b"`, "`a``b`", `"a"b"c"`, "\"a`b\"`c\"d`", `"\x41\102\u0043D"`, `"\xff\xfe"`, `"\xc3\xa9"`, `"é"`, `"日本語"`, `"😀"`, "`日本`", `"a日b" c`, "`\\n`", "`\\`", "`a\n\nb` c\nd", "`\r\n` x", "\"\t\"", "`\t`", `"'"`, `'a'`, `"%d%s"`, `"$HOME"`, `"!x!"`, `"^"`, `"#"`} {
		s := s
		c.do("string", func() {
			c.lexOne(fmt.Sprintf("string/%q", s), s)
			c.lexOne(fmt.Sprintf("string/%q", "x := "+s+"\ny"), "x := "+s+"\ny")
			c.lexOne(fmt.Sprintf("string/%q", s+s), s+s)
		})
	}
	// pairs of characters in strings
	chars := "a0 \"\\`'$!%^&|<>*?[](){}~#@;,.=+-_/:nxut\té"
	for _, x := range chars {
		x := x
		c.do("strpair", func() {
			for _, y := range chars {
				for _, f := range []string{"\"%c%c\"", "`%c%c`", "\"\\%c%c\""} {
					s := fmt.Sprintf(f, x, y)
					c.lexOne(fmt.Sprintf("strpair/%q", s), s)
				}
			}
		})
	}
	// integers
	for _, s := range []string{"0", "1", "10", "-0", "-1", "- 1", "1-1", "1 -1", "1 - 1", "1- 1", "a-1", "a -1", "a- 1", "a-b", ")-1", "]-1", "}-1", "(-1", "[-1", "{-1", ",-1", "=-1", "==-1", ":=-1", "+-1", "--1", "- -1", "a--", "a-- -1", "a--1", "a+-1", "a*-1", "case -1", "return -1", "print -1", "len-1", "true-1", "nil-1", "\"s\"-1", "a\n-1", "a;-1", "a:-1", "@-1", "|-1", "!-1", "-a", "-(", "-\"s\"", "1a", "1_000", "a1", "1 2", "00", "9223372036854775808", "-9223372036854775808", "a-=1", "a-=-1", "a/-1", "a<-1", "a&&-1", "1-1-1", "1--1", "-1-1", "-1 -1", "a[i-1]", "a[i -1]", "a[-1]", "f(-1)", "f(a,-1)", "f()-1", "a/*c*/-1", "=/*c*/-1", "a /*\n*/ -1"} {
		s := s
		c.do("int", func() { c.lexOne(fmt.Sprintf("int/%q", s), s) })
	}
	// three lexemes without separators
	tri := []string{"=", "!", "<", ">", "&", "|", "+", "-", "*", "/", "%", ":", ".", "1", "a", "\n", "\"s\""}
	for _, x := range tri {
		x := x
		c.do("tri", func() {
			for _, y := range tri {
				for _, z := range tri {
					c.lexOne(fmt.Sprintf("tri/%q", x+y+z), x+y+z)
					if !c.quick() {
						for _, u := range tri {
							c.lexOne(fmt.Sprintf("tri/%q", x+y+z+u), x+y+z+u)
						}
					}
				}
			}
		})
	}
	// seeded sequences
	n := c.n(1500, 20000)
	for i := 0; i < n; i++ {
		i := i
		c.do("seq", func() {
			r := rand.New(rand.NewSource(c.seed*1000003 + int64(i)))
			var b strings.Builder
			for k := 3 + r.Intn(25); k > 0; k-- {
				b.WriteString(lexemes[r.Intn(len(lexemes))])
				if r.Intn(4) > 0 {
					b.WriteString(lexSeps[r.Intn(len(lexSeps))])
				}
			}
			c.lexOne(fmt.Sprintf("seq/%d", i), b.String())
		})
	}
}

func sortStrings(r []string) []string {
	sort.Strings(r)
	return r
}
