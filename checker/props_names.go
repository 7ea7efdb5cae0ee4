package main

import (
	"fmt"
	"hash/fnv"
	"regexp"
	"sort"
	"strings"
	"unicode"
)

// ---------------------------------------------------------------- C10: the spelling of identifiers

// A namedProgram is a program whose identifiers are written q… (Q… if public). All of them are user identifiers of the main
// file (or of the file they stand in) and are renamed consistently within the files.
type namedProgram struct {
	key     string
	targets []string
	worlds  bool
	src     string            // main file
	files   map[string]string // further files (relative to /w)
}

var nameProgs = []namedProgram{
	{"many", nil, false, `
qg := 1
func qf(p1 int, p2 int, p3 int, p4 int, p5 int, p6 int, p7 int, p8 int, p9 int, p10 int, p11 int, p12 int) (int, int, int, int, int, int, int, int, int, int, int, int) {
 qk := p11 + qg
 return p1 + qk, p2 + qk, p3 + qk, p4 + qk, p5 + qk, p6 + qk, p7 + qk, p8 + qk, p9 + qk, p10 + qk, p11 + qk, p12 + qk
}
r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12 := qf(3, 6, 9, 12, 15, 18, 21, 24, 27, 30, 33, 36)
print(r1, r2, r3, r4, r5, r6, r7, r8, r9, r10, r11, r12)
ql := []int{1}
for qi := 0; qi < 2; qi++ {
 if qi == 1 {
  break
 }
 qg = qg + (qi + 0) * 2 - 1
 ql[len(ql)] = qg
}
for qi := 0; qi < 2; qi++ {
 if qi == 1 {
  break
 }
 qg = qg + (qi + 1) * 2 - 1
 ql[len(ql)] = qg
}
for qi := 0; qi < 2; qi++ {
 if qi == 1 {
  break
 }
 qg = qg + (qi + 2) * 2 - 1
 ql[len(ql)] = qg
}
for qi := 0; qi < 2; qi++ {
 if qi == 1 {
  break
 }
 qg = qg + (qi + 3) * 2 - 1
 ql[len(ql)] = qg
}
for qi := 0; qi < 2; qi++ {
 if qi == 1 {
  break
 }
 qg = qg + (qi + 4) * 2 - 1
 ql[len(ql)] = qg
}
for qi := 0; qi < 2; qi++ {
 if qi == 1 {
  break
 }
 qg = qg + (qi + 5) * 2 - 1
 ql[len(ql)] = qg
}
for qi := 0; qi < 2; qi++ {
 if qi == 1 {
  break
 }
 qg = qg + (qi + 6) * 2 - 1
 ql[len(ql)] = qg
}
for qi := 0; qi < 2; qi++ {
 if qi == 1 {
  break
 }
 qg = qg + (qi + 7) * 2 - 1
 ql[len(ql)] = qg
}
for qi := 0; qi < 2; qi++ {
 if qi == 1 {
  break
 }
 qg = qg + (qi + 8) * 2 - 1
 ql[len(ql)] = qg
}
for qi := 0; qi < 2; qi++ {
 if qi == 1 {
  break
 }
 qg = qg + (qi + 9) * 2 - 1
 ql[len(ql)] = qg
}
for qi := 0; qi < 2; qi++ {
 if qi == 1 {
  break
 }
 qg = qg + (qi + 10) * 2 - 1
 ql[len(ql)] = qg
}
for qi := 0; qi < 2; qi++ {
 if qi == 1 {
  break
 }
 qg = qg + (qi + 11) * 2 - 1
 ql[len(ql)] = qg
}
for qi, qv := range ql {
 print(qi, qv, qg)
}
qs := itoa(r1) + itoa(r2) + itoa(r3) + itoa(r4) + itoa(r5) + itoa(r6) + itoa(r7) + itoa(r8) + itoa(r9) + itoa(r10) + itoa(r11) + itoa(r12)
print(qs, len(qs), qs[9:11])
`, nil},
	{"globals", nil, false, `
qa := 5
qb := "t"
qc := true
var qd, qe int = 1, 2
qa += 2
qd, qe = qe, qd
qa++
print(qa, qb, qc, qd, qe)
qb = qb + itoa(qa) + "u"
qc = qa > 3 && qd == 2 || !qc
print(qa * qd - qe, qb, qc)
if qc {
 qf := qa % 3
 print(qf, len(qb))
}
`, nil},
	{"func", nil, false, `
var qg int = 3
func qf(qp int, qs string) (int, string) {
 ql := qp * 2
 qg = qg + ql
 if ql > 100 {
  return 0, ""
 }
 return ql + qg, qs + "!"
}
func qh(qp int) int {
 qx, qy := qf(qp, "in")
 qz := qp
 print(qy, qz, qg)
 return qx + qp
}
qr := qh(4)
qv, qw := qf(qr, "out")
print(qr, qv, qw, qg)
`, nil},
	{"proc", nil, false, `
qn := 1
func qa() {
 qk := 7
 print("a", qn, qk)
 qn++
}
func qb(qx bool, qy int) bool {
 qa()
 qk := qy
 qa()
 return qx && qk == qy
}
qk := 2
qa()
print(qb(true, qk), qk)
print(qb(false, qk), qn)
`, nil},
	{"loops", nil, false, `
qs := 0
for qi := 0; qi < 3; qi++ {
 for qj := 0; qj < 3; qj++ {
  if qj == 1 {
   continue
  }
  if qi == 2 {
   break
  }
  qs += qi * 10 + qj
 }
 print(qi, qs)
}
qw := 0
for qw < 2 {
 qw++
}
for {
 qw += 2
 if qw > 5 {
  break
 }
}
print(qs, qw)
`, nil},
	{"range", nil, false, `
ql := []int{4, 5, 6}
qt := "xyz"
func qf(qm []int) int {
 qr := 0
 for qi, qv := range qm {
  for qj, qc := range "ab" {
   qr += qv * qj + qi
   print(qc, qr)
  }
 }
 return qr
}
for qi, qv := range ql {
 print(qi, qv)
 for qj, qd := range qt {
  print(qj, qd)
 }
}
print(qf(ql))
`, nil},
	{"slices", nil, false, `
qa := []int{1, 2}
qb := qa
qa[4] = 9
qc := []string{}
qc[1] = "s"
print(len(qa), qb[4], len(qc), qc[1], qa[3])
qd := []int{}
qn := copy(qd, qa)
print(qn, len(qd), qd[4])
func qf(qp []int, qi int) []int {
 qp[qi] = 7
 qo := []int{8}
 qz := copy(qo, qp)
 print(qz, len(qo))
 return qo
}
qe := qf(qa, 2)
print(qe[2], qa[2], len(qe), qb[2])
`, nil},
	{"strings", nil, false, `
qs := "hello"
qt := qs[1:3]
qu := qs[qt == "el" && true == true]
`, nil},
	{"substr", nil, false, `
qs := "hello"
qi := 1
qt := qs[qi:3]
func qf(qp string, qn int) string {
 qr := qp[qn:]
 qm := len(qr)
 print(qr, qm)
 return qr + qp[:qn]
}
print(qt, len(qs), qf(qs, 2), qs[qi])
`, nil},
	{"switch", nil, false, `
func qf(qx int) string {
 switch qx {
 case 1:
  qy := "one"
  return qy
 case 2:
  return "two"
 }
 return "more"
}
for qi := 0; qi < 4; qi++ {
 switch qi {
 case 0:
  print("zero")
 case 1:
  qk := qf(qi)
  print(qk)
 default:
  print(qf(qi))
 }
}
`, nil},
	{"multi", nil, false, `
func qf() (int, string, bool) {
 return 1, "b", true
}
func qg(qx int, qy int, qz string) int {
 qx, qy = qy, qx
 print(qx, qy, qz)
 return qx - qy
}
qa, qb, qc := qf()
qd, qe := qg(qa, 2, qb), qg(3, qa, "k")
print(qa, qb, qc, qd, qe)
print(qg(qg(1, 2, "i"), qg(3, 4, "j"), qb))
qd, qe, qa = qe, qa, qd
print(qd, qe, qa)
`, nil},
	{"panic", nil, false, `
func qf(qx int) int {
 if qx == 2 {
  panic("stop")
 }
 return qx
}
func qg(qx int) int {
 qy := qf(qx)
 print("got", qy)
 return qy
}
print(qg(1))
print(qg(2))
print("never")
`, nil},
	{"exists", []string{"bash", "batch"}, true, `
qe := exists("afile")
func qf(qp string) bool {
 qr := exists(qp)
 return qr
}
print(qe, qf("none"), qf("b.txt"))
`, nil},
	{"apps", []string{"bash"}, true, `
func qf(qa string) string {
 qo, qe, qc := @K_p(qa, "x")
 print(qo, qe, qc)
 return qo
}
qb := qf("k")
qo, qe, qc := @K_q(qb) | @K_r("z")
print(qo, qe, qc, qb)
@K_s()
func qg() {
 @K_p("in")
}
qg()
@K_fn_x("u")
print("end")
`, nil},
	{"files", []string{"bash"}, false, `
qp := "f.txt"
qd := "data"
write(qp, qd)
write(qp, qd + "2", true)
qr := read(qp)
print(qr, exists(qp))
func qf(qx string) string {
 qy := read(qx)
 write(qx, qy + "z")
 return read(qx)
}
print(qf(qp))
`, nil},
	{"input", []string{"bash"}, false, `
qn := input("name? ")
func qf() string {
 qm := input()
 return qm
}
print("[" + qn + "]", "[" + qf() + "]")
`, nil},
	{"import", nil, false, `
import qm "m.tsh"
qa := 1
func Qf(qx int) int {
 return qx + 100
}
func qg() int {
 return 5
}
print(qa, Qf(qa), qm.Qf(qa), qg(), qm.Qg())
`, map[string]string{"m.tsh": `
qa := 10
func Qf(qx int) int {
 qa += qx
 qy := qh()
 return qa + qy
}
func Qg() int {
 return Qf(2) + qh()
}
func qh() int {
 return 1000
}
`}},
	{"std", []string{"bash"}, false, `
import (
 "strings"
)
func qf(qs string, qt string) int {
 return 77
}
qs := "a-b"
print(K_strings.K_Index(qs, "-"), qf(qs, "b"), K_strings.K_Contains(qs, "b"))
qa, qb, qc := K_strings.K_Cut(qs, "-")
print(qa, qb, qc)
`, map[string]string{"/opt/tsh/std/strings.tsh": `
func K_Index(qs string, qt string) int {
 qn := len(qt)
 for qi := 0; qi < len(qs); qi++ {
  if qs[qi:qi+qn] == qt {
   return qi
  }
 }
 return -1
}
func K_Contains(qs string, qt string) bool {
 return K_Index(qs, qt) >= 0
}
func K_Cut(qs string, qt string) (string, string, bool) {
 qi := K_Index(qs, qt)
 if qi >= 0 {
  return qs[:qi], qs[qi+len(qt):], true
 }
 return qs, "", false
}
`}},
}

// Names with a meaning in a shell. They only add to the names found in the emitted scripts.
var shellNames = []string{"PATH", "IFS", "HOME", "PWD", "UID", "EUID", "PPID", "RANDOM", "SECONDS", "LINENO", "REPLY", "OPTIND", "BASH_ENV", "GROUPS", "FUNCNAME", "_", "__", "DIRSTACK", "HISTCMD", "SHELLOPTS", "BASHPID", "EPOCHSECONDS", "PIPESTATUS", "PS4",
	"echo", "eval", "printf", "local", "read", "cat", "exit", "set", "unset", "test", "true", "false", "declare", "export", "let", "cd", "shift", "source", "trap", "command", "builtin", "exec", "readonly", "break", "continue", "return", "wait", "alias",
	"fi", "then", "do", "done", "elif", "esac", "in", "while", "until", "function", "select", "time", "coproc",
	"errorlevel", "ERRORLEVEL", "CD", "DATE", "TIME", "CMDCMDLINE", "path", "ComSpec", "PATHEXT", "LF", "lf", "end", "END", "call", "goto", "rem", "endlocal", "setlocal", "eof", "EOF", "nul", "con", "not", "defined", "exist", "equ", "neq", "lss", "geq", "NUL"}

var qIdent = regexp.MustCompile(`\b[qQ][a-z]+\b`)
var nameTok = regexp.MustCompile(`[A-Za-z_0-9#$@]+`)
var legalIdent = regexp.MustCompile(`^[A-Za-z_][A-Za-z0-9_]*$`)

// rename writes the program with the given spellings; the identifiers which are not mentioned get neutral ones.
func (n namedProgram) rename(m map[string]string) *Project {
	f := func(s string) string {
		inStr := false
		var b, w strings.Builder
		flush := func() {
			t := w.String()
			w.Reset()
			if t != "" && !inStr && qIdent.MatchString(t) && qIdent.FindString(t) == t {
				v := neutralName(t)
				if x, ok := m[t]; ok {
					v = x
				}
				t = "K_" + v
			}
			b.WriteString(t)
		}
		for _, c := range s {
			if unicode.IsLetter(c) || unicode.IsDigit(c) || c == '_' {
				w.WriteRune(c)
				continue
			}
			flush()
			if c == '"' {
				inStr = !inStr
			}
			b.WriteRune(c)
		}
		flush()
		return b.String()
	}
	p := oneFile(f(n.src))
	for k, v := range n.files {
		if k[0] != '/' {
			k = "/w/" + k
		}
		p.Files[k] = f(v)
	}
	p.Digest = map[string]string{"/w/m.tsh": "7d1e5a90"}
	return p
}

func neutralName(q string) string {
	if q[0] == 'Q' {
		return "Zneu" + q[1:]
	}
	return "zneu" + q[1:]
}

func (n namedProgram) idents() []string {
	seen := map[string]bool{}
	var r []string
	for _, s := range append([]string{n.src}, sortedValues(n.files)...) {
		for _, q := range qIdent.FindAllString(s, -1) {
			if !seen[q] && !strings.HasPrefix(q, "K_") {
				seen[q] = true
				r = append(r, q)
			}
		}
	}
	sort.Strings(r)
	return r
}

func sortedValues(m map[string]string) []string {
	var r []string
	for _, k := range sortedKeys(m) {
		r = append(r, m[k])
	}
	return r
}

func (n namedProgram) opt() progOpt {
	o := progOpt{targets: n.targets, orReject: true}
	if o.targets == nil {
		o.targets = bothTargets
	}
	if n.worlds {
		for _, w := range cmdWorlds()[:2] {
			mk := w.mk
			o.worlds = append(o.worlds, namedWorld{w.name, func(at *Atoms) *WorldModel {
				m := mk(at)
				m.Progs["fn_x"] = m.Progs["p"] // a program whose name has the form of an emitted function
				return m
			}})
		}
	}
	if n.key == "input" {
		o.world = func() *WorldModel { return &WorldModel{Stdin: []string{"ann", "bob", "eve"}} }
	}
	return o
}

// captures gives the spellings of identifier q whose emitted names could meet another name of the script: the emitted
// forms of q are found by means of its neutral spelling, and every other name of the scripts is solved for q.
func captures(q string, own, all []string, fold bool) []string {
	neu := neutralName(q)
	cmp := func(s string) string {
		if fold {
			return strings.ToLower(s)
		}
		return s
	}
	type form struct{ pre, suf string }
	forms := map[form]bool{}
	for _, t := range own {
		if i := strings.Index(cmp(t), cmp(neu)); i >= 0 {
			forms[form{t[:i], t[i+len(neu):]}] = true
		}
	}
	forms[form{"", ""}] = true
	found := map[string]bool{}
	for f := range forms {
		for _, t := range all {
			if len(t) < len(f.pre)+len(f.suf) || cmp(t[:len(f.pre)]) != cmp(f.pre) || cmp(t[len(t)-len(f.suf):]) != cmp(f.suf) {
				continue
			}
			m := t[len(f.pre) : len(t)-len(f.suf)]
			vs := []string{m}
			if fold {
				vs = append(vs, flipCase(m), strings.ToUpper(m))
			}
			for _, v := range vs {
				if v != neu && legalIdent.MatchString(v) && !isKeyword(v) && v != "true" && v != "false" && v != "nil" {
					found[v] = true
				}
			}
		}
	}
	var r []string
	for v := range found {
		r = append(r, v)
	}
	sort.Strings(r)
	return r
}

func flipCase(s string) string {
	if s == "" {
		return s
	}
	c := rune(s[0])
	if unicode.IsUpper(c) {
		return string(unicode.ToLower(c)) + s[1:]
	}
	return string(unicode.ToUpper(c)) + s[1:]
}

func (c *Ctx) nameCases() {
	toks := map[string][]string{} // program/target -> names of the neutral script
	union := map[string]map[string]bool{}
	for _, n := range nameProgs {
		for _, t := range n.opt().targets {
			pr := prepare(n.rename(nil))
			if _, err := refCheck(pr); err != nil {
				continue
			}
			r := c.a.transpileOne(pr, t)
			c.analysed(r.Funcs)
			if r.Kind != "script" {
				c.violate(n.key+"/"+t, "the program with neutral names is not translated: "+kindText(r), n.src)
				continue
			}
			seen := map[string]bool{}
			for _, w := range nameTok.FindAllString(r.Script.flat(), -1) {
				seen[w] = true
			}
			for w := range seen {
				toks[n.key+"/"+t] = append(toks[n.key+"/"+t], w)
			}
			sort.Strings(toks[n.key+"/"+t])
			if union[t] == nil {
				union[t] = map[string]bool{}
			}
			if n.key == "many" && c.quick() {
				continue
			}
			for w := range seen {
				union[t][w] = true
			}
		}
	}
	for t := range union {
		c.count("different names in the emitted "+t+" scripts", len(union[t]))
	}
	for _, n := range nameProgs {
		ids := n.idents()
		for _, t := range n.opt().targets {
			own := toks[n.key+"/"+t]
			if own == nil {
				continue
			}
			o := n.opt()
			o.targets = []string{t}
			c.renamed(n, "neutral", nil, o)
			fold := t == "batch"
			for qi, q := range ids {
				pub := q[0] == 'Q'
				ok := func(v string) bool { return !pub || unicode.IsUpper(rune(v[0])) || n.files == nil }
				done := map[string]bool{}
				try := func(why, v string, more map[string]string) {
					k := q + "=" + v
					m := map[string]string{q: v}
					for a, b := range more {
						m[a] = b
						k += "," + a + "=" + b
					}
					if done[k] || !ok(v) {
						return
					}
					done[k] = true
					// injective
					used := map[string]bool{}
					for _, x := range ids {
						v := neutralName(x)
						if y, ok := m[x]; ok {
							v = y
						}
						if used[v] {
							return
						}
						used[v] = true
					}
					c.count("renamings: "+why, 1)
					c.renamed(n, t+"/"+k, m, o)
				}
				// names of the script of this program, and (a part of) those of all scripts
				many := n.key == "many" && c.quick()
				for _, v := range captures(q, own, own, fold) {
					// one name of each kind, with a counter of two digits
					if many && !regexp.MustCompile(`(^|[^0-9])1[01][a-z_]*$`).MatchString(v) {
						continue
					}
					try("names of the same script", v, nil)
				}
				if many {
					continue
				}
				i := 0
				for _, v := range captures(q, own, sortedBool(union[t]), fold) {
					h := fnv.New32a()
					h.Write([]byte(v + q + n.key))
					if !c.quick() || h.Sum32()%9 == 0 {
						try("names of other scripts", v, nil)
					}
					i++
				}
				for i, v := range shellNames {
					if isKeyword(v) || v == "true" || v == "false" {
						continue
					}
					if !c.quick() || (i+qi*7)%5 == 0 {
						try("names of the shell", v, nil)
					}
				}
				// pairs: only the case differs, one is the mangled form of the other
				for _, x := range ids {
					if x == q || x[0] != q[0] {
						continue
					}
					for _, pr := range [][2]string{{"Ab", "ab"}, {"aB", "ab"}, {"AB", "ab"}} {
						if pub || x[0] == 'Q' {
							pr = [2]string{"A" + pr[0][1:], "A" + strings.ToUpper(pr[1][1:])}
							if pr[0] == pr[1] {
								continue
							}
						}
						try("names which differ in case", pr[0], map[string]string{x: pr[1]})
						if c.quick() {
							break
						}
					}
					// the emitted form of x around a neutral spelling is a spelling of q
					for _, w := range own {
						if strings.Contains(w, neutralName(x)) && w != neutralName(x) && legalIdent.MatchString(w) {
							for _, v := range []string{w} {
								try("mangled form of another name", v, nil)
							}
						}
					}
				}
			}
		}
	}
}

func sortedBool(m map[string]bool) []string {
	var r []string
	for k := range m {
		r = append(r, k)
	}
	sort.Strings(r)
	return r
}

// renamed queues one spelling of the program.
func (c *Ctx) renamed(n namedProgram, key string, m map[string]string, o progOpt) {
	p := n.rename(m)
	o.proj = p
	c.program(n.key+"/"+key, p.Files[p.Main], o)
}

var _ = fmt.Sprint

func init() {
	checks["C10"] = &propCheck{level: "translation_validation",
		rule: "the names of the emitted scripts are collected from translations (by abstract interpretation of the compiler's SSA) of programs with neutral names; the emitted forms of every identifier are unified with all other names of the scripts (upper and lower case are equal in Batch) and with names of the shells, which gives the spellings that could be captured; the program with each of these spellings has to be rejected or its script has to mean (in the model of its shell) what the program means",
		run:  func(c *Ctx) { c.nameCases() }}
}
