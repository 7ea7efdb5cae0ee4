package main

import (
	"fmt"
	"go/token"
	"strings"
)

// ---------------------------------------------------------------- comparing a script with the reference

type Mismatch struct {
	What string
	Line int // script line concerned (0 = unknown)
	Path string
}

type EquivRes struct {
	Paths   int
	Skipped int    // reference undefined on the path (division by zero, index out of range)
	Limit   string // the shell model cannot follow the script
	Bound   string // cut at a bound
	Mis     *Mismatch
}

type eqOpt struct {
	stderrOK bool
	hazards  bool
}

type shellRun func(script string, sy *Sym, wm *WorldModel) (*Obs, error)

// equiv compares the reference semantics of a module with the abstract run of the emitted script.
func equiv(at *Atoms, m *RModule, script string, run shellRun, bits int, world func() *WorldModel, maxPaths, maxChoices int, eo eqOpt) *EquivRes {
	res := &EquivRes{}
	var prefix []int
	for {
		o := newOracle(prefix, maxChoices)
		sy := newSym(at, o, bits)
		mis, skip, lim := equivOne(at, m, script, run, sy, world, eo)
		res.Paths++
		if skip {
			res.Skipped++
		}
		if strings.HasPrefix(lim, "decision bound") {
			res.Bound = lim
		} else if lim != "" && res.Limit == "" {
			res.Limit = lim
		}
		if mis != nil {
			var d []string
			for _, c := range o.choices {
				d = append(d, fmt.Sprintf("%s=%d", at.show(c.key), c.c))
			}
			mis.Path = strings.Join(d, ", ")
			res.Mis = mis
			return res
		}
		np, ok := nextPrefix(o.choices)
		if !ok {
			return res
		}
		if res.Paths >= maxPaths {
			res.Bound = fmt.Sprintf("more than %d value paths", maxPaths)
			return res
		}
		prefix = np
	}
}

func equivOne(at *Atoms, m *RModule, script string, run shellRun, sy *Sym, world func() *WorldModel, eo eqOpt) (mis *Mismatch, skip bool, lim string) {
	defer func() {
		if e := recover(); e != nil {
			if b, ok := e.(oracleBound); ok {
				lim = "decision bound at " + at.show(b.key)
				return
			}
			panic(e)
		}
	}()
	var w1, w2 *WorldModel
	if world != nil {
		w1, w2 = world(), world()
	}
	ref, err := refRun(m, sy, w1)
	if err != nil {
		return nil, true, ""
	}
	got, err := run(script, sy, w2)
	if err != nil {
		be, _ := err.(bashErr)
		if be.msg == "step bound of the shell model" {
			return &Mismatch{What: "the script does not terminate within the step bound although the program does", Line: be.line}, false, ""
		}
		return nil, false, fmt.Sprintf("line %d: %s", be.line, at.show(err.Error()))
	}
	if d := diffObs(at, sy, ref, got, eo); d != nil {
		return d, false, ""
	}
	return nil, false, ""
}

func diffObs(at *Atoms, sy *Sym, ref, got *Obs, eo eqOpt) *Mismatch {
	if e := got.Err.String(); e != "" && !eo.stderrOK {
		ln := 0
		if len(got.ErrLine) > 0 {
			ln = got.ErrLine[0]
		}
		return &Mismatch{What: fmt.Sprintf("the shell reports %q", at.show(strings.TrimSpace(e))), Line: ln}
	}
	a, b := ref.Out.String(), got.Out.String()
	if a != b {
		la, lb := strings.SplitAfter(a, "\n"), strings.SplitAfter(b, "\n")
		for i := 0; i < len(la) || i < len(lb); i++ {
			x, y := "<end>", "<end>"
			if i < len(la) {
				x = la[i]
			}
			if i < len(lb) {
				y = lb[i]
			}
			if x != y {
				ln := 0
				if i < len(got.OutLine) {
					ln = got.OutLine[i]
				} else if n := len(got.OutLine); n > 0 {
					ln = got.OutLine[n-1]
				}
				return &Mismatch{What: fmt.Sprintf("output line %d is %q, the program means %q", i+1, at.show(y), at.show(x)), Line: ln}
			}
		}
	}
	if ref.Exit != got.Exit {
		return &Mismatch{What: fmt.Sprintf("exit status is %s, the program means %s", at.show(got.Exit), at.show(ref.Exit))}
	}
	for i := 0; i < len(ref.Ev) || i < len(got.Ev); i++ {
		x, y := "<none>", "<none>"
		if i < len(ref.Ev) {
			x = ref.Ev[i]
		}
		if i < len(got.Ev) {
			y = got.Ev[i]
		}
		if x != y {
			return &Mismatch{What: fmt.Sprintf("external effect %d is %s, the program means %s", i+1, at.show(y), at.show(x))}
		}
	}
	if eo.hazards && len(got.Haz) > 0 {
		return &Mismatch{What: got.Haz[0].what, Line: got.Haz[0].line}
	}
	return nil
}

// lineSite gives the Go source position that emitted a line of a script.
func (w *World) lineSite(s Str, line int) string {
	if line <= 0 {
		return ""
	}
	n := 1
	var best token.Pos
	for _, p := range s.p {
		for _, seg := range strings.SplitAfter(p.s, "\n") {
			if seg == "" {
				continue
			}
			if n == line && p.org.IsValid() && strings.TrimSpace(seg) != "" && !best.IsValid() {
				best = p.org
			}
			if strings.HasSuffix(seg, "\n") {
				n++
			}
		}
	}
	if best.IsValid() {
		return w.pos(best)
	}
	return ""
}

func scriptLine(at *Atoms, s string, line int) string {
	ls := strings.Split(s, "\n")
	if line >= 1 && line <= len(ls) {
		return at.show(ls[line-1])
	}
	return ""
}
