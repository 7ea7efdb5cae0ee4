package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"runtime/pprof"
	"strings"
)

func main() {
	debug.SetGCPercent(400)
	debug.SetMemoryLimit(10 << 30)
	if len(os.Args) == 3 && os.Args[1] == "check" {
		if p := os.Getenv("CPUPROF"); p != "" {
			f, _ := os.Create(p)
			pprof.StartCPUProfile(f)
			r := runCheck(os.Args[2])
			pprof.StopCPUProfile()
			os.Exit(r)
		}
		os.Exit(runCheck(os.Args[2]))
	}
	if len(os.Args) == 3 && os.Args[1] == "bash" { // runs a script in the model
		src, _ := os.ReadFile(os.Args[2])
		at := newAtoms()
		obs, err := bashRun(string(src), newSym(at, newOracle(nil, 0), 64), &WorldModel{})
		if err != nil {
			fmt.Println("MODEL:", err)
			return
		}
		fmt.Print(obs.Out.String())
		fmt.Println("exit", obs.Exit, "stderr", obs.Err.Len() > 0)
		return
	}
	w, err := loadWorld()
	if err != nil {
		fmt.Println("LOAD:", err)
		os.Exit(2)
	}
	a, err := w.anchors()
	if err != nil {
		fmt.Println("ANCHORS:", err)
		os.Exit(2)
	}
	debugPanics = os.Getenv("DBG") != ""
	switch os.Args[1] {
	case "show":
		src, _ := os.ReadFile(os.Args[2])
		pr := prepare(oneFile(string(src)))
		for _, t := range []string{"bash", "batch"} {
			if len(os.Args) > 3 && os.Args[3] != t {
				continue
			}
			c := a.transpileOne(pr, t)
			fmt.Println(t, c.Kind, c.Err, c.Where, c.Steps)
			fmt.Println(pr.Atoms.show(c.Script.flat()))
		}
	case "gen":
		genMain(20, gfeat{Str: true, Slice: true, Func: true, Subs: true, Loops: true, Switch: true, Multi: true, Sym: 2, Size: 7, Globals: true, Globalw: true})
	case "eq":
		src, _ := os.ReadFile(os.Args[2])
		for _, s := range strings.Split(string(src), "----\n") {
			pr := prepare(oneFile(s))
			m, rerr := refCheck(pr)
			if rerr != nil {
				fmt.Println("REF REJECTS", rerr, "|", strings.ReplaceAll(s, "\n", "; "))
				continue
			}
			for _, tg := range []string{"bash", "batch"} {
				if len(os.Args) > 3 && os.Args[3] != tg {
					continue
				}
				c := a.transpileOne(pr, tg)
				if c.Kind != "script" {
					fmt.Println("!!", tg, c.Kind, c.Err, c.Where, "|", strings.ReplaceAll(s, "\n", "; "))
					continue
				}
				sc := c.Script.flat()
				run, bits := shellRun(bashRun), 64
				if tg == "batch" {
					run, bits = cmdRun, 32
				}
				r := equiv(pr.Atoms, m, sc, run, bits, nil, 200, 40, eqOpt{})
				flag := "  "
				if r.Mis != nil || r.Limit != "" {
					flag = "!!"
				}
				fmt.Printf("%s %s paths=%d skip=%d limit=%s | %s\n", flag, tg, r.Paths, r.Skipped, r.Limit, strings.ReplaceAll(s, "\n", "; "))
				if r.Mis != nil {
					fmt.Printf("     %s\n     on path %s\n     script line %d: %s   (%s)\n", r.Mis.What, r.Mis.Path, r.Mis.Line, scriptLine(pr.Atoms, sc, r.Mis.Line), w.lineSite(c.Script, r.Mis.Line))
				}
			}
		}
	case "probe": // snippets separated by lines "----"
		src, _ := os.ReadFile(os.Args[2])
		for _, s := range strings.Split(string(src), "----\n") {
			pr := prepare(oneFile(s))
			_, rerr := refCheck(pr)
			c := a.transpileOne(pr, "bash")
			flag := "  "
			if (rerr == nil) != (c.Kind == "script") {
				flag = "!!"
			}
			fmt.Printf("%s ref=%v repo=%s %s %s | %s\n", flag, rerr, c.Kind, c.Err, c.Where, strings.ReplaceAll(s, "\n", "; "))
		}
	}
}

func genMain(n int, f gfeat) {
	for i := 1; i <= n; i++ {
		fmt.Printf("// %d\n%s----\n", i, genProgram(uint64(i), f))
	}
}
