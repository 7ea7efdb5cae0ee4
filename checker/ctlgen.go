package main

import (
	"fmt"
	"strings"
)

// ctlKinds are the blocks of the control schemas: loops (F counting, R range, W condition), switches (S value, B bare,
// D default branch) and conditionals (I then, E else).
const ctlKinds = "FRWSBDIE"

// ctlFront marks a statement at the start of a block.
const ctlFront = 10

// ctlSeqs gives every order of the blocks up to depth n.
func ctlSeqs(n int) []string {
	var seqs []string
	var walk func(s string)
	walk = func(s string) {
		if s != "" {
			seqs = append(seqs, s)
		}
		if len(s) < n {
			for _, k := range ctlKinds {
				walk(s + string(k))
			}
		}
	}
	walk("")
	return seqs
}

func ctlLoop(s string) bool { return strings.ContainsAny(s, "FRW") }

// ctlSchemas nests blocks in every order up to depth n, with a break or continue in the innermost block, in an outer
// block after the end of the nested one, in two places, and in the second of two blocks next to each other.
func ctlSchemas(n int) []schema {
	var r []schema
	add := func(k, body string) { r = append(r, schema{k, "c := #1\nl := []int{1, 2}\n" + body}) }
	for _, s := range ctlSeqs(n) {
		ctls := []string{"break", "continue"}
		for _, c := range append(ctls, "both") {
			if ctlLoop(s) {
				add("ctl/"+s+"/"+c, ctlNest(s, 0, map[int]string{len(s) - 1: c}, ""))
			}
			for p := 0; p < len(s)-1; p++ {
				if ctlLoop(s[:p+1]) {
					add(fmt.Sprintf("ctlout/%s/%d/%s", s, p, c), ctlNest(s, 0, map[int]string{p: c}, ""))
				}
			}
			if len(s) == 3 && (ctlLoop(s[:1]) || ctlLoop(s[2:])) {
				second := ctlNest(s[2:], 5, map[int]string{0: c}, "")
				add("ctlnext/"+s+"/"+c, ctlNest(s[:2], 0, nil, second))
			}
		}
		// two of them, in shallow programs also in front of the nested block
		if len(s) > 3 {
			continue
		}
		var at []int
		for p := range s {
			if at = append(at, p); len(s) <= 2 {
				at = append(at, ctlFront+p)
			}
		}
		for i, p := range at {
			for _, q := range at[i+1:] {
				if !ctlLoop(s[:p%ctlFront+1]) || !ctlLoop(s[:q%ctlFront+1]) {
					continue
				}
				for _, c := range ctls {
					for _, d := range ctls {
						add(fmt.Sprintf("ctltwo/%s/%d%s/%d%s", s, p, c, q, d), ctlNest(s, 0, map[int]string{p: c, q: d}, ""))
					}
				}
			}
		}
	}
	return r
}

// ctlLeave nests blocks up to depth n with a statement which leaves the function or the script.
func ctlLeave(n int, what string) []schema {
	var r []schema
	for _, s := range ctlSeqs(n) {
		for p := 0; p < len(s); p++ {
			switch what {
			case "return":
				r = append(r, schema{fmt.Sprintf("ctlret/%s/%d", s, p), "l := []int{1, 2}\nfunc f(c int) int {\n" + ctlNest(s, 0, map[int]string{p: "return c * 10"}, "") + "return 1\n}\nprint(f(#1))\nfor i := 1; i < 4; i++ {\nprint(f(i), i)\n}\n"})
				r = append(r, schema{fmt.Sprintf("ctlret2/%s/%d", s, p), "l := []int{1, 2}\nfunc f(c int) (int, string) {\n" + ctlNest(s, 0, map[int]string{p: "return c, \"in\""}, "") + "return 1, \"end\"\n}\nfunc g(c int) string {\na, b := f(c + 1)\nreturn b + itoa(a)\n}\nprint(g(#1))\n"})
			case "panic":
				r = append(r, schema{fmt.Sprintf("ctlpanic/%s/%d", s, p), "c := #1\nl := []int{1, 2}\n" + ctlNest(s, 0, map[int]string{p: "panic(\"left\")"}, "")})
			}
		}
	}
	return r
}

// ctlNest gives nested blocks; the statement at[i] stands at the end of block i (at[ctlFront+i] in front of its contents), next stands after the block which is nested in the first one.
func ctlNest(seq string, base int, at map[int]string, next string) string {
	var b strings.Builder
	leave := func(i int) {
		switch s := at[i]; s {
		case "":
		case "both":
			fmt.Fprintf(&b, "if c == 2 {\nbreak\n}\nif c == 3 {\ncontinue\n}\nprint(\"body%d\")\n", base+i)
		default:
			n := len(seq) - 1 - i%ctlFront + i/ctlFront
			fmt.Fprintf(&b, "if c == %d {\n%s\n}\nprint(\"body%d\")\n", 2+n%2, s, base+i)
		}
	}
	var open []string
	for i, k := range seq {
		v := fmt.Sprintf("v%d", base+i)
		switch k {
		case 'F':
			fmt.Fprintf(&b, "for %s := 0; %s < 2; %s++ {\n", v, v, v)
			open = append(open, "}\n")
		case 'R':
			fmt.Fprintf(&b, "for %s, x%d := range l {\nprint(\"r\", %s, x%d)\n", v, base+i, v, base+i)
			open = append(open, "}\n")
		case 'W':
			fmt.Fprintf(&b, "%s := 0\nfor %s < 2 {\n%s++\n", v, v, v)
			open = append(open, "}\n")
		case 'S':
			b.WriteString("switch c {\ncase 5:\nprint(\"five\")\ncase c:\n")
			open = append(open, "default:\nprint(\"def\")\n}\n")
		case 'B':
			b.WriteString("switch {\ncase c < 9:\n")
			open = append(open, "case true:\nprint(\"other\")\n}\n")
		case 'D':
			b.WriteString("switch c {\ncase 4:\nprint(\"four\")\ndefault:\n")
			open = append(open, "}\n")
		case 'I':
			b.WriteString("if c < 7 {\n")
			open = append(open, "} else {\nprint(\"else\")\n}\n")
		case 'E':
			b.WriteString("if c == 6 {\nprint(\"six\")\n} else {\n")
			open = append(open, "}\n")
		}
		fmt.Fprintf(&b, "print(\"in%d\")\n", base+i)
		leave(ctlFront + i)
	}
	for i := len(open) - 1; i >= 0; i-- {
		leave(i)
		b.WriteString(open[i])
		fmt.Fprintf(&b, "print(\"out%d\")\n", base+i)
		if i == 1 && next != "" {
			b.WriteString(next)
		}
	}
	return b.String()
}
