package main

import (
	"fmt"
	"strings"
)

// ---------------------------------------------------------------- C08, C17, C18: data, files, commands

// hostile string values: every one would be changed by some expansion, splitting or option parsing of the shell.
var hostile = []string{
	"plain", "", " ", "  a  b  ", "\t", "a\tb", "line1\nline2", "\nlead", "trail\n", "a\n\nb", "  \n  ", "\n\n",
	`a"b`, `"`, `""`, `'`, `a'b`, `'a b'`, `"a b"`, "`", "`touch c`", `$HOME`, `${HOME}`, `$(touch c)`, `$((1+1))`, `$1`, `$$`, `$`, `$?`, `$@`, `${x`, `a$`,
	`\`, `\\`, `a\`, `\n`, `\t`, `\c`, `a\nb`, `\"`, `\$`, `\\n`, `\0101`, `\x41`,
	`*`, `?`, `[a]`, `*.tsh`, `a*b?c`, `[!a]`, `~`, `~/x`, `{a,b}`, `{1..3}`,
	`-n`, `-e`, `-e \n`, `-`, `--`, `-E x`, `-ne`, `-v`, `-p`, `+x`, `--help`,
	`;`, `; echo x`, `a;b`, `&`, `a & b`, `&&`, `|`, `a | b`, `||`, `<`, `>`, `> f`, `(`, `)`, `(a)`, `()`, `#`, `# c`, `a#b`, `!`, `!!`, `! x`, `%`, `%s`, `%d %s`, `%%`, `^`, `=`, `a=b`, `==`, `!=`,
	`,`, `.`, `..`, `:`, `/`, `@`, `x y`, `$(echo "a b")`, `"$HOME"`, `'$HOME'`, `"; touch c; "`, `'; touch c; '`, "a\"`$x`\"b", `EOF`, `true`, `0`, `1`, `-1`, `007`, `1+1`, `x[0]`, `nil`, `printf`, `-o`, `-a`, `]`, `[`, `]]`, `a ]`, `-z`, `-f`,
}

// uses of a string value held in "v" (already defined); "w" is a free name.
var strUses = []schema{
	{"print", "print(v)\nprint(\"<\", v, \">\")\nprint(v, v)\n"},
	{"copyvar", "w := v\nvar u string = w\nx, y := u, v\ny = x\nprint(w)\nprint(u)\nprint(y)\n"},
	{"concat", "w := v + v\nprint(w)\nw = \"<\" + v + \">\" + v\nprint(w)\nw += v\nprint(w)\nprint(v + \"x\", \"x\" + v)\n"},
	{"compare", "w := v\nu := v + \"x\"\nprint(v == w, v != w, v == u, v != u, v == \"plain\", \"plain\" != v, v == v + \"\")\nif v == w {\n print(\"same\")\n} else {\n print(\"differ\")\n}\nif v != u && v == w {\n print(\"both\")\n}\n"},
	{"switch", "w := v\nu := v + \"y\"\nswitch v {\ncase u:\n print(\"no\")\ncase w:\n print(\"hit\")\ndefault:\n print(\"default\")\n}\nswitch v {\ncase \"plain\":\n print(\"plain\")\ncase \"*\":\n print(\"star\")\ndefault:\n print(\"other\")\n}\n"},
	{"param", "func f(a string, b int, c string) {\n print(a)\n print(c)\n print(a == c, b)\n}\nf(v, 3, v)\nf(v + \"x\", 4, \"y\" + v)\n"},
	{"return", "func f(a string) string {\n return a\n}\nfunc g(a string) string {\n b := a\n return f(b)\n}\nw := f(v)\nprint(w)\nprint(g(v))\nprint(f(g(f(v))) == v)\n"},
	{"mreturn", "func f(a string, b string) (string, int, string) {\n return b, 7, a\n}\nx, y, z := f(v, \"k\")\nprint(x)\nprint(y)\nprint(z)\nx, y, z = f(\"l\", v)\nprint(x)\nprint(z)\n"},
	{"global", "g := \"init\"\nfunc set(a string) {\n g = a\n g += a\n}\nset(v)\nprint(g)\n"},
	{"multi", "a, b := v, \"q\"\na, b = b, a\nprint(a)\nprint(b)\n"},
	{"sliceLit", "a := []string{v, \"x\", v + \"y\"}\nprint(a[0])\nprint(a[1])\nprint(a[2])\nprint(len(a))\n"},
	{"sliceSet", "a := []string{}\na[0] = v\na[2] = v\na[1] = a[0]\nprint(a[0])\nprint(a[1])\nprint(a[2])\nprint(len(a))\na[2] = a[2] + v\nw := a[2]\nprint(w)\n"},
	{"sliceParam", "func f(a []string, s string) []string {\n a[1] = s\n return a\n}\na := []string{v}\nb := f(a, a[0])\nprint(b[1])\nprint(a[1] == v, len(b))\n"},
	{"sliceRange", "a := []string{v, \"m\", v}\nfor i, e := range a {\n print(i)\n print(e)\n if e == v {\n  print(\"v\")\n }\n}\n"},
	{"sliceCopy", "a := []string{v, v}\nb := []string{\"z\"}\nprint(copy(b, a))\nprint(b[0])\nprint(b[1])\n"},
	{"range", "for i, ch := range v {\n print(i)\n print(ch)\n w := ch + \".\"\n print(w)\n}\n"},
	{"length", "print(len(v))\nw := len(v + \"ab\")\nprint(w)\n"},
	{"sub", "print(v[:])\nw := v[0:]\nprint(w)\nprint(v[:len(v)])\nif len(v) > 0 {\n print(v[0])\n x := v[1:]\n print(x)\n y := v[:len(v) - 1]\n print(y)\n z := v[len(v) - 1]\n print(z)\n}\n"},
	{"subloop", "w := \"\"\nfor i := 0; i < len(v); i++ {\n w = w + v[i]\n u := v[i:i + 1]\n if u != v[i] {\n  print(\"bad\")\n }\n}\nprint(w)\nprint(w == v)\n"},
	{"reverse", "w := \"\"\nfor i := len(v) - 1; i >= 0; i-- {\n w += v[i]\n}\nprint(w)\n"},
	{"write", "write(\"out.txt\", v)\nwrite(\"out.txt\", v, true)\nwrite(\"out.txt\", v + v, false)\nprint(1)\n"},
	{"writeread", "write(\"rt.txt\", v)\nw := read(\"rt.txt\")\nprint(w)\nprint(w == v)\n"},
	{"writefunc", "func f(p string, s string) string {\n write(p, s, true)\n write(p, s, true)\n return read(p)\n}\nprint(f(\"o\", v))\n"},
	{"panic", "print(\"before\")\npanic(v)\n"},
	{"panicfunc", "func f(a string) int {\n panic(a + \"!\")\n return 1\n}\nw := f(v)\nprint(w)\n"},
	{"app", "@K_prog(v, \"x\", v + \"y\", v)\nw, e, c := @K_prog(v)\nprint(w)\n"},
	{"pipe", "@K_prog(v) | @K_prog(v, v)\n"},
	{"branches", "for i := 0; i < 2; i++ {\n if i == 0 {\n  print(v)\n } else {\n  w := v\n  print(w)\n }\n}\nfunc f(a string) {\n for i, ch := range a {\n  if i == 0 {\n   print(ch)\n  }\n }\n print(a)\n}\nf(v)\n"},
	{"nested", "func f(a []string) string {\n return a[0]\n}\nfunc g(a string) []string {\n return []string{a, a + \"2\"}\n}\nx := g(v)\nprint(f(x))\nprint(x[1])\nprint(len(f(g(v))))\n"},
	{"error", "func f(a string) (int, error) {\n return 1, a\n}\nn, err := f(v)\nprint(n)\nprint(err)\n"},
	{"recdata", "a := []string{v}\nb := []string{a[0]}\nc := []string{b[0] + a[0]}\nprint(c[0])\nprint(len(c[0]))\n"},
	{"funcslice", "func f(s string) {\n l := []string{s}\n l[1] = s\n for i, e := range l {\n  print(e)\n }\n k := l[1]\n print(k[:])\n}\nf(v)\n"},
}

// a path, a prompt: places where the value is not only data for the script
var strUses2 = []schema{
	{"prompt", "w := input(v)\nprint(w)\n"},
	{"path", "write(v, \"content\")\nprint(exists(v))\nprint(read(v))\nwrite(v, \"more\", true)\nprint(exists(v + \"x\"))\n"},
}

func recProg(out, code string) ProgModel {
	return func(sy *Sym, args []string, stdin string) (string, string, string) { return out, "", code }
}

// show the arguments on the output: what a pipeline transports becomes visible
func echoProg(sy *Sym, args []string, stdin string) (string, string, string) {
	return "{" + strings.Join(args, "\x1f") + "|" + stdin + "}\n", "", "0"
}

func dataWorld(in string, file string) *WorldModel {
	return &WorldModel{Files: map[string]string{"in.txt": file, "a.tsh": "x\n", "b": "y\n"}, Stdin: []string{in, "second"}, Progs: map[string]ProgModel{"prog": echoProg, "gen": recProg(in+"\n", "0")}, Dirs: map[string]bool{}}
}

func init() {
	checks["C08"] = &propCheck{level: "translation_validation",
		rule: "every kind of use of a string x every source of a string (literal, raw literal, file, standard input, command output) is transpiled by abstract interpretation of the compiler's SSA; the emitted Bash template is interpreted (a) with an opaque value, reporting any place where the shell would expand, split, evaluate or take it as an option, and (b) with each value of a table of hostile strings, comparing output, exit status, files and argument vectors with the reference meaning",
		run: func(c *Ctx) {
			c.scaleTexts()
			uses := append(append([]schema{}, strUses...), strUses2...)
			// opaque values
			for _, u := range uses {
				mk := func(at *Atoms) *WorldModel {
					v := string(at.mk("str", "v"))
					return dataWorld(v, v+"\n")
				}
				o := progOpt{hazards: true, worlds: []namedWorld{{"", mk}}, maxPaths: 40}
				c.program("opaque/lit/"+u.key, "v := \"\x01s0\x01\"\n"+u.src, o)
				c.program("opaque/file/"+u.key, "v := read(\"in.txt\")\n"+u.src, o)
				c.program("opaque/stdin/"+u.key, "v := input()\n"+u.src, o)
			}
			// hostile values from the run time environment: one script per use, all values
			var fw, iw, cw []namedWorld
			for i, h := range hostile {
				h := h
				n := fmt.Sprintf("/%d%q", i, h)
				fw = append(fw, namedWorld{n, func(*Atoms) *WorldModel { return dataWorld("", h+"\n") }})
				if !strings.Contains(h, "\n") {
					iw = append(iw, namedWorld{n, func(*Atoms) *WorldModel { return dataWorld(h, "") }})
				}
				if !strings.HasSuffix(h, "\n") {
					cw = append(cw, namedWorld{n, func(*Atoms) *WorldModel { return dataWorld(h, "") }})
				}
			}
			for _, u := range uses {
				c.program("file/"+u.key, "v := read(\"in.txt\")\n"+u.src, progOpt{worlds: fw})
				c.program("stdin/"+u.key, "v := input()\n"+u.src, progOpt{worlds: iw})
				c.program("cmd/"+u.key, "v, ve, vc := @K_gen()\n"+u.src, progOpt{worlds: cw})
			}
			plain := []namedWorld{{"", func(*Atoms) *WorldModel { return dataWorld("reply", "file\n") }}}
			lits := func(h string) [][2]string {
				r := [][2]string{{"q", fmt.Sprintf("%q", h)}}
				if !strings.Contains(h, "`") {
					r = append(r, [2]string{"raw", "`" + h + "`"})
				}
				return r
			}
			for i, h := range hostile {
				for _, l := range lits(h) {
					for _, u := range uses {
						k := fmt.Sprintf("%s/%d%q", u.key, i, h)
						c.program("lit"+l[0]+"/"+k, "v := "+l[1]+"\n"+u.src, progOpt{worlds: plain})
						if l[0] == "raw" && c.quick() {
							break
						}
						// the literal itself in every position of the variable
						if s := litInline(u.src, l[1]); s != "" {
							c.program("inline"+l[0]+"/"+k, s, progOpt{worlds: plain})
						}
					}
				}
			}
			// each printable character in each kind of place
			for _, s := range c16Chars() {
				c.program(s.key, strings.NewReplacer("@p(", "@K_p(", "@q(", "@K_q(").Replace(s.src), progOpt{worlds: []namedWorld{{"", func(*Atoms) *WorldModel {
					w := dataWorld("reply", "")
					w.Progs["p"], w.Progs["q"] = echoProg, echoProg
					return w
				}}}})
			}
			if !c.quick() {
				var pw []namedWorld
				for a := 0x20; a < 0x7f; a++ {
					for b := 0x20; b < 0x7f; b++ {
						h := string(rune(a)) + string(rune(b))
						pw = append(pw, namedWorld{fmt.Sprintf("/%q", h), func(*Atoms) *WorldModel { return dataWorld(h, h+"\n") }})
					}
				}
				for _, u := range uses {
					c.program("pair/file/"+u.key, "v := read(\"in.txt\")\n"+u.src, progOpt{worlds: pw})
					c.program("pair/stdin/"+u.key, "v := input()\n"+u.src, progOpt{worlds: pw})
					for _, w := range pw {

						c.program("pair/lit/"+u.key+w.name, "v := "+w.name[1:]+"\n"+u.src, progOpt{worlds: plain})
					}
				}
			}
		}}
}

// litInline replaces the variable v by a literal wherever the grammar takes one.
func litInline(src, lit string) string {
	r := strings.NewReplacer(
		"print(v)", "print("+lit+")", "print(v, v)", "print("+lit+", "+lit+")", ", v, ", ", "+lit+", ",
		":= v\n", ":= "+lit+"\n", "= w\n", "= w\n", "v + ", lit+" + ", " + v", " + "+lit,
		"(v, ", "("+lit+", ", "(v)", "("+lit+")", ", v)", ", "+lit+")", "{v,", "{"+lit+",", "{v}", "{"+lit+"}", ", v}", ", "+lit+"}",
		"v == ", lit+" == ", " == v", " == "+lit, "v != ", lit+" != ", "case w", "case "+lit, "switch v", "switch "+lit, "= v\n", "= "+lit+"\n", ":= v,", ":= "+lit+",", "range v ", "range "+lit+" ")
	s := r.Replace(src)
	if s == src || strings.Contains(s, lit+"[") {
		return "" // subscripts of literals are not part of the language
	}
	return "v := " + lit + "\n" + s
}

// ---------------------------------------------------------------- C17

var hostilePaths = []string{"f", "a b", " lead", "trail ", "two  blanks", "-n", "-", "--", "-e", "d/f", "d e/f g", "./f", "../f", "/w/f", "a'b", `a"b`, "a`b", "$HOME", "$(touch c)", "${x}", `a\b`, `a\`, `\n`, "*", "a*b", "?", "[a]", "~", "~/f", "a;b", "a&b", "a|b", "a<b", "a>b", "(a)", "{a,b}", "#a", "!", "a!b", "%s", "^", "=", "a=b", "a\tb", "a\nb", "1", "&1", "2", "EOF", "x.txt", ".hidden", "true", "@", ",", ":"}

var pathForms = []schema{
	{"lit", "%s"},
	{"var", "pv := %s\n\x02pv"},
	{"concat", "pv := %s\nqv := \"\"\n\x02pv + qv"},
	{"slice", "ps := []string{%s}\n\x02ps[0]"},
	{"func", "func path() string {\n return %s\n}\n\x02path()"},
}

// %P path, %C content, %Q another path
var lineStore = []schema{
	{"once", "write(%P, %C)\nprint(read(%P) == %C)\nprint(read(%P))\nprint(exists(%P))\n"},
	{"missing", "print(exists(%P))\nif !exists(%P) {\n print(\"absent\")\n} else {\n print(\"present\")\n}\nwrite(%P, %C)\nif exists(%P) {\n print(\"present\")\n}\n"},
	{"overwrite", "write(%P, \"old \" + %C)\nwrite(%P, %C)\nprint(read(%P))\nwrite(%P, %C + \"!\", false)\nx := read(%P)\nprint(x, len(x))\n"},
	{"append", "write(%P, %C)\nwrite(%P, \"l2\", true)\nprint(read(%P))\nwrite(%P, %C, true)\nx := read(%P)\nprint(x)\nprint(x == %C + \"\\nl2\\n\" + %C)\n"},
	{"appendnew", "write(%P, %C, true)\nprint(read(%P))\nwrite(%P, %C, true)\nprint(read(%P))\n"},
	{"empty", "write(%P, \"\")\nprint(read(%P) == \"\")\nprint(exists(%P))\nwrite(%P, \"\", true)\nwrite(%P, %C, true)\nprint(read(%P))\n"},
	{"other", "write(%Q, \"other\")\nwrite(%P, %C)\nprint(read(%Q))\nwrite(%P, \"x\", true)\nprint(read(%Q))\nwrite(%Q, %C, true)\nprint(read(%Q))\nprint(read(%P))\n"},
	{"flag", "t := true\nf := false\nn := 3\nwrite(%P, %C, f)\nwrite(%P, \"a\", t)\nwrite(%P, \"b\", !t)\nwrite(%P, \"c\", n == 3)\nwrite(%P, \"d\", t && !f)\nprint(read(%P))\nwrite(%P, %C, n > 5 || f)\nprint(read(%P))\n"},
	{"flagfunc", "func yes() bool {\n print(\"yes\")\n return true\n}\nwrite(%P, %C)\nwrite(%P, %C, yes())\nwrite(%P, \"z\", !yes())\nprint(read(%P))\n"},
	{"func", "func save(p string, c string, a bool) {\n write(p, c, a)\n}\nfunc load(p string) string {\n return read(p)\n}\nfunc there(p string) bool {\n return exists(p)\n}\nprint(there(%P))\nsave(%P, %C, false)\nsave(%P, \"n\", true)\nprint(load(%P))\nprint(there(%P))\n"},
	{"funclocal", "func job(d string) int {\n p := d\n c := %C\n write(p, c)\n r := read(p)\n write(p, r + \"+\", true)\n s := read(p)\n print(s)\n return len(s)\n}\nprint(job(%P))\n"},
	{"loop", "for i := 0; i < 3; i++ {\n write(%P, %C + itoa(i), i > 0)\n if exists(%P) {\n  print(read(%P))\n }\n}\n"},
	{"range", "for i, c := range []string{%C, \"\", %C} {\n write(%P, c, true)\n}\nprint(read(%P))\n"},
	{"transfer", "write(%P, %C)\nwrite(%Q, read(%P))\nprint(read(%Q) == read(%P))\nwrite(%P, read(%Q), true)\nprint(read(%P))\n"},
	{"slice", "a := []string{%C}\nwrite(%P, a[0])\na[1] = read(%P)\nprint(a[1] == a[0])\nprint(a[1])\n"},
	{"args", "func one(s string) string {\n print(\"one\")\n return s\n}\nfunc two(s string) string {\n print(\"two\")\n return s\n}\nwrite(one(%P), two(%C))\nprint(read(one(%P)), exists(two(%P)))\n"},
	{"cond", "write(%P, %C)\nif read(%P) == %C && exists(%P) {\n print(\"ok\")\n}\nswitch read(%P) {\ncase %C:\n print(\"case\")\ndefault:\n print(\"default\")\n}\n"},
	{"return", "func both(p string) (string, bool) {\n return read(p), exists(p)\n}\nwrite(%P, %C)\ns, b := both(%P)\nprint(s)\nprint(b)\n"},
	{"global", "g := \"\"\nfunc f(p string) {\n write(p, %C)\n g = read(p)\n}\nf(%P)\nprint(g)\n"},
}

var storeContents = []schema{{"op", "\"\x01s0\x01\""}, {"txt", `"text"`}, {"empty", `""`}, {"nl", `"a\nb"`}, {"nl2", `"a\n"`}, {"nl3", `"\n\n"`}, {"sp", `"  a  b "`}, {"tab", `"\ta"`}, {"bs", `"a\\nb\\"`}, {"dash", `"-n"`}, {"dashe", `"-e a\\tb"`}, {"dollar", `"$HOME $(ls) ${x}"`}, {"q", `"\"a' 'b\""`}, {"bq", "\"`ls`\""}, {"pct", `"%s%d%%"`}, {"glob", `"* ? [a]"`}, {"meta", `"a;b&c|d<e>f(g)#h!"`}, {"tilde", `"~ {a,b}"`}}

func storeWorlds() []namedWorld {
	mk := func(f map[string]string, d ...string) func(*Atoms) *WorldModel {
		return func(*Atoms) *WorldModel {
			w := &WorldModel{Files: map[string]string{}, Dirs: map[string]bool{}, Progs: map[string]ProgModel{}}
			for k, v := range f {
				w.Files[k] = v
			}
			for _, x := range d {
				w.Dirs[x] = true
			}
			return w
		}
	}
	return []namedWorld{
		{"/fresh", mk(nil, "d", "d e", "/w")},
		{"/present", mk(map[string]string{"f": "old\n", "a b": "old1\nold2\n", "bystander": "keep\n", "a": "A\n", "b": "B\n", "g": "G\n"}, "d")},
		{"/ragged", mk(map[string]string{"f": "no newline", "a b": "\n", "bystander": "", "a": "x\n\n\n"}, "d")},
	}
}

func storeProg(form schema, path, body, content, other string) string {
	f := fmt.Sprintf(form.src, path)
	pre, use, ok := strings.Cut(f, "\x02")
	if !ok || form.key == "lit" {
		pre, use = "", f
	}
	return pre + strings.NewReplacer("%P", use, "%C", content, "%Q", other).Replace(body)
}

func init() {
	checks["C17"] = &propCheck{level: "translation_validation",
		rule: "every sequence of write/read/exists in the table x path form x path x content is transpiled by abstract interpretation of the compiler's SSA; the emitted Bash template is interpreted over a model of the file system (every path it writes is an event) and compared with the line-store meaning",
		run: func(c *Ctx) {
			c.scaleStore()
			ws := storeWorlds()
			for _, s := range lineStore {
				// opaque path and content
				for _, f := range pathForms {
					for _, ct := range storeContents {
						c.program("seq/"+s.key+"/"+f.key+"/"+ct.key, storeProg(f, `"a b"`, s.src, ct.src, `"other f"`), progOpt{worlds: ws, hazards: true})
						if !c.quick() {
							for i, p := range hostilePaths {
								c.program(fmt.Sprintf("all/%s/%s/%s/%d%q", s.key, f.key, ct.key, i, p), storeProg(f, fmt.Sprintf("%q", p), s.src, ct.src, `"other f"`), progOpt{worlds: ws})
							}
						}
					}
					for i, p := range hostilePaths {
						c.program(fmt.Sprintf("path/%s/%s/%d%q", s.key, f.key, i, p), storeProg(f, fmt.Sprintf("%q", p), s.src, `"c d"`, `"other f"`), progOpt{worlds: ws})
					}
				}
				for i, h := range hostile {
					c.program(fmt.Sprintf("content/%s/%d%q", s.key, i, h), storeProg(pathForms[0], `"f"`, s.src, fmt.Sprintf("%q", h), `"g"`), progOpt{worlds: ws})
				}
			}
			// existing files and directories that the program did not write
			for _, s := range []schema{
				{"dir", "print(exists(\"d\"))\nprint(exists(\"nope\"))\nb := exists(\"d\")\nif b {\n print(\"dir\")\n}\n"},
				{"read", "if exists(\"f\") {\n s := read(\"f\")\n print(s)\n print(len(s))\n}\nif exists(\"a b\") {\n print(read(\"a b\"))\n}\nif exists(\"a\") {\n print(read(\"a\"))\n print(read(\"a\") == \"x\")\n}\n"},
				{"append", "write(\"f\", \"x\", true)\nprint(read(\"f\"))\nwrite(\"bystander\", \"y\", true)\nprint(read(\"bystander\"))\n"},
				{"parts", "write(\"a b\", \"c\")\nprint(exists(\"a\"), exists(\"b\"), exists(\"a b\"))\nwrite(\"new name\", \"c\", true)\nprint(exists(\"new\"), exists(\"name\"), exists(\"new name\"))\n"},
				{"globs", "print(exists(\"*\"), exists(\"?\"), exists(\"[a]\"), exists(\"a*\"))\nwrite(\"*\", \"s\")\nprint(exists(\"*\"), read(\"*\"))\n"},
			} {
				c.program("world/"+s.key, s.src, progOpt{worlds: ws})
			}
		}}
	checks["C18"] = &propCheck{level: "translation_validation",
		rule: "every shape of command call (arguments x argument forms, pipes of one to four programs, captured or not, in every context) is transpiled by abstract interpretation of the compiler's SSA; the emitted Bash template is interpreted with recording program models and compared with the reference: the argument vectors byte for byte, each program's standard input, the captured output and status, and what is printed",
		run: func(c *Ctx) {
			c.scaleCommands()
			for _, s := range cmdSchemas(c.quick()) {
				c.program(s.key, s.src, progOpt{worlds: cmdWorlds(), hazards: strings.HasPrefix(s.key, "opaque")})
			}
		}}
}

// ---------------------------------------------------------------- C18

func cmdWorlds() []namedWorld {
	mk := func(outs []string, codes []string) func(*Atoms) *WorldModel {
		return func(at *Atoms) *WorldModel {
			w := &WorldModel{Files: map[string]string{"afile": "x\n", "b.txt": "y\n"}, Dirs: map[string]bool{}, Progs: map[string]ProgModel{}}
			for i, n := range []string{"p", "q", "r", "s"} {
				o, cd := outs[i%len(outs)], codes[i%len(codes)]
				n := n
				w.Progs[n] = func(sy *Sym, args []string, stdin string) (string, string, string) {
					if o == "echo" {
						return n + "{" + strings.Join(args, "\x1f") + "|" + stdin + "}\n", "", cd
					}
					return o, "", cd
				}
			}
			for _, n := range []string{"dir/my prog", "./p", "p q", "a$b", "*", "-x", "a'b", "#p", "p;q", "~p", "p\\q"} {
				w.Progs[n] = w.Progs["p"]
			}
			return w
		}
	}
	return []namedWorld{
		{"/ok", mk([]string{"echo"}, []string{"0"})},
		{"/fail", mk([]string{"echo"}, []string{"3", "0", "255", "1"})},
		{"/fail2", mk([]string{"echo"}, []string{"0", "127", "0", "2"})},
		{"/silent", mk([]string{""}, []string{"1", "0"})},
		{"/lines", mk([]string{"a\nb\n", "no newline", "  x  \n", "\n\na\n"}, []string{"0", "4"})},
		{"/meta", mk([]string{"$HOME * `x` \\ \"q\" 'r'\n", "-n\n", "a\tb  c\n"}, []string{"0", "200"})},
	}
}

func cmdSchemas(quick bool) []schema {
	var r []schema
	add := func(k, s string, a ...any) { r = append(r, schema{k, fmt.Sprintf(s, a...)}) }
	ctxs := []schema{
		{"top", "%S\nprint(\"end\")\n"},
		{"func", "func w() {\n %S\n print(\"in\")\n}\nw()\nprint(\"end\")\n"},
		{"funcret", "func w(z int) int {\n %S\n return z\n}\nprint(w(4))\n"},
		{"if", "b := true\nif b {\n %S\n}\nprint(\"end\")\n"},
		{"else", "b := false\nif b {\n print(1)\n} else {\n %S\n}\nprint(\"end\")\n"},
		{"loop", "for i := 0; i < 2; i++ {\n %S\n}\nprint(\"end\")\n"},
		{"range", "for i, e := range []string{\"u\", \"v\"} {\n %S\n print(e)\n}\nprint(\"end\")\n"},
		{"switch", "k := 1\nswitch k {\ncase 1:\n %S\ndefault:\n print(0)\n}\nprint(\"end\")\n"},
	}
	args := []string{"", `"a"`, `"a", "b"`, `"", ""`, `"a b", "", " ", "c"`, `"a", "b", "c", "d", "e", "f", "g", "h", "i", "j", "k"`}
	shapes := []string{}
	for _, a := range args {
		shapes = append(shapes, "@K_p("+a+")", "@K_p("+a+") | @K_q("+a+")", "@K_p() | @K_q("+a+") | @K_r(\"x\")", "@K_p("+a+") | @K_q() | @K_r() | @K_s("+a+")")
	}
	for si, sh := range shapes {
		for _, cx := range ctxs {
			put := func(k, s string) { r = append(r, schema{k, strings.ReplaceAll(cx.src, "%S", s)}) }
			put(fmt.Sprintf("run/%s/%d", cx.key, si), sh)
			put(fmt.Sprintf("capture/%s/%d", cx.key, si), "so, se, sc := "+sh+"\n print(so)\n print(sc)\n print(len(so), sc == 0)")
			put(fmt.Sprintf("twice/%s/%d", cx.key, si), sh+"\n so, se, sc := "+sh+"\n "+sh+"\n print(sc)\n print(so)\n so, se, sc = @K_q(so, itoa(sc)) | @K_r(so)\n print(so)\n print(sc)")
			put(fmt.Sprintf("vars/%s/%d", cx.key, si), "var so string\n var se string\n var sc int\n so, se, sc = "+sh+"\n if sc == 0 {\n  print(\"ok\", so)\n } else {\n  print(\"failed\", sc)\n }")
		}
	}
	// argument values
	argForms := []schema{
		{"lit", "%s"}, {"var", "v := %s\n|v"}, {"concat", "v := %s\n|v + \"\""}, {"slice", "ar := []string{\"z\", %s}\n|ar[1]"},
		{"func", "func f() string {\n return %s\n}\n|f()"}, {"sub", "v := \"x\" + %s\n|v[1:]"}, {"group", "v := %s\n|(v)"},
	}
	argUse := []schema{
		{"one", "@K_p(%A)\n"}, {"mid", "@K_p(\"a\", %A, \"b\")\n"}, {"two", "@K_p(%A, %A)\n"}, {"pipe", "@K_p(%A) | @K_q(%A, \"k\")\n"},
		{"cap", "so, se, sc := @K_p(%A)\nprint(so)\nprint(sc)\n"}, {"cappipe", "so, se, sc := @K_p(\"k\", %A) | @K_q(%A)\nprint(so)\nprint(sc)\n"},
		{"infunc", "func g(a string) {\n @K_p(a, %A)\n so, se, sc := @K_q(a)\n print(so)\n}\ng(%A)\n"},
	}
	val := func(key, lit string) {
		for _, f := range argForms {
			t := strings.Replace(f.src, "%s", lit, 1)
			pre, use, ok := "", t, false
			if f.key != "lit" {
				pre, use, ok = strings.Cut(t, "\n|")
				if f.key == "func" {
					pre, use, ok = strings.Cut(t, "}\n|")
					pre += "}"
				}
				if !ok {
					i := strings.LastIndex(t, "\n|")
					pre, use = t[:i], t[i+2:]
				}
				pre += "\n"
			}
			for _, u := range argUse {
				r = append(r, schema{key + "/" + f.key + "/" + u.key, pre + strings.ReplaceAll(u.src, "%A", use) + "print(\"end\")\n"})
			}
		}
	}
	val("opaque", "\"\x01s0\x01\"")
	for i, h := range hostile {
		val(fmt.Sprintf("arg%d", i), fmt.Sprintf("%q", h))
	}
	if !quick {
		for a := 0x20; a < 0x7f; a++ {
			for b := 0x20; b < 0x7f; b++ {
				val(fmt.Sprintf("pair%c%c", a, b), fmt.Sprintf("%q", string(rune(a))+string(rune(b))))
			}
		}
	}
	// other argument types and evaluation
	add("types", "i := #k\nb := true\n@K_p(itoa(i), itoa(3))\n@K_p(itoa(i + 1))\nprint(\"end\")\n")
	add("order", "func a() string {\n print(\"a\")\n return \"1\"\n}\nfunc b() string {\n print(\"b\")\n return \"2\"\n}\n@K_p(a(), b(), a()) | @K_q(b())\nso, se, sc := @K_p(b(), a()) | @K_q(a())\nprint(so)\nprint(sc)\n")
	add("nested", "so, se, sc := @K_p(\"a\")\nto, te, tc := @K_q(so, itoa(sc))\nprint(to)\nprint(tc, sc)\nprint(so)\n")
	add("status", "so, se, sc := @K_p()\nif sc != 0 {\n print(\"nonzero\", sc)\n}\nx := sc * 2 + 1\nprint(x)\nto, te, tc := @K_q()\nprint(sc, tc)\nprint(sc == tc)\n")
	add("statusfunc", "func run(a string) int {\n so, se, sc := @K_p(a) | @K_q()\n return sc\n}\nfunc out(a string) (string, int) {\n so, se, sc := @K_q(a) | @K_p(a)\n return so, sc\n}\nx := run(\"1\")\ny := run(\"2\")\nprint(x, y)\nz, c := out(\"3\")\nprint(z)\nprint(c)\n")
	add("reuse", "var so string\nvar se string\nvar sc int\nfor i := 0; i < 3; i++ {\n so, se, sc = @K_p(itoa(i), so)\n print(so)\n print(sc)\n}\n")
	add("cond", "so, se, sc := @K_p()\nswitch sc {\ncase 0:\n print(\"zero\")\ncase 3:\n print(\"three\")\ndefault:\n print(\"other\")\n}\nfor sc < 5 {\n sc++\n print(sc)\n}\n")
	add("global", "g := \"\"\nh := 0\nfunc run() {\n var e string\n g, e, h = @K_p(\"x\") | @K_q(\"y\")\n}\nrun()\nprint(g)\nprint(h)\n")
	add("loopcap", "all := []string{}\nfor i, n := range []string{\"a\", \"b c\", \"\"} {\n so, se, sc := @K_p(n)\n all[i] = so\n}\nfor i, n := range all {\n print(n)\n}\n")
	for _, n := range []string{"dir/my prog", "./p", "p q", "a$b", "*", "-x", "a'b", "#p", "p;q", "~p", "p\\q"} {
		add("name/"+n, "@%q(\"a b\")\n@%q() | @K_q(\"x\") | @%q(\"*\")\nso, se, sc := @%q(\"1\")\nprint(so)\nprint(sc)\n", n, n, n, n)
		add("nameraw/"+n, "@`%s`(\"a b\", \"\")\nprint(1)\n", n)
	}
	return r
}
