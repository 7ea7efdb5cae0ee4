package main

import (
	"fmt"
	"path/filepath"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// ---------------------------------------------------------------- C19: the command

type cmdCase struct {
	key    string
	args   []string
	files  map[string]string
	dirs   []string
	links  map[string]string
	noRead []string
	noAdd  []string
	cwd    string
}

func (k *cmdCase) setup(in *Interp) {
	pl := home
	pl.cwd = "/w"
	if k.cwd != "" {
		pl.cwd = k.cwd
	}
	pl.put(in, &Project{Files: k.files})
	fs := in.fs()
	for _, d := range append([]string{"/w", "/out"}, k.dirs...) {
		for ; ; d = filepath.Dir(d) {
			fs.Dirs[d] = true
			if d == "/" {
				break
			}
		}
	}
	fs.Links, fs.NoRead, fs.NoAdd = k.links, map[string]bool{}, map[string]bool{}
	for _, f := range k.noRead {
		fs.NoRead[f] = true
	}
	for _, f := range k.noAdd {
		fs.NoAdd[f] = true
	}
	in.extra["args"] = append([]string{"tsh"}, k.args...)
}

// expectation of one run: fail is "" if the run has to succeed; outs are the files a target may (or must) write.
type cmdWant struct {
	fail string
	outs map[string]string
}

func (c *Ctx) cmdExpect(k *cmdCase) cmdWant {
	var w cmdWant
	w.outs = map[string]string{}
	fail := func(s string) {
		if w.fail == "" {
			w.fail = s
		}
	}
	var fs *VFS
	c.session(func(in *Interp) { k.setup(in); fs = in.fs() })
	abs := func(p string) string {
		if !filepath.IsAbs(p) {
			p = filepath.Join(fs.Cwd, p)
		}
		return fs.resolve(p)
	}
	in, out := "", ""
	var ts []string
	for i := 0; i < len(k.args); i += 2 {
		if i+1 == len(k.args) {
			fail("option without a value")
			break
		}
		v := k.args[i+1]
		switch k.args[i] {
		case "-i", "--in":
			if v == "" || !fs.has(abs(v)) {
				fail("input is not a file")
			}
			in = v
		case "-o", "--out":
			if v == "" || !fs.Dirs[abs(v)] {
				fail("output is not a directory")
			}
			out = v
		case "-t", "--type":
			if v != "bash" && v != "batch" {
				fail("unknown type")
				continue
			}
			ts = append(ts, v)
		default:
			fail("unknown option")
		}
	}
	if in == "" || out == "" || len(ts) == 0 {
		fail("missing option")
	}
	if w.fail != "" {
		return w
	}
	ext := map[string]string{"bash": "sh", "batch": "bat"}
	done := map[string]bool{}
	for _, t := range ts {
		if done[t] {
			continue
		}
		done[t] = true
		lib := ""
		kind, msg := c.session(func(i *Interp) {
			k.setup(i)
			lib = pureOut(i, c.a.runTranspile(i, c.a.newTranspiler(i), in, c.a.newConverter(i, t)))
		})
		if kind != "script" {
			fail("the library: " + kind + ": " + msg)
			continue
		}
		if strings.HasPrefix(lib, "\x00") {
			fail("the library rejects the program")
			continue
		}
		base := filepath.Base(in)
		o := filepath.Join(out, base[:len(base)-len(filepath.Ext(base))]+"."+ext[t])
		p := abs(o)
		if p == abs(in) {
			fail("the output would replace the input")
			continue
		}
		if x := fs.writable(p); x != "" {
			fail("the output cannot be written: " + x)
			continue
		}
		w.outs[p] = lib
	}
	return w
}

func (c *Ctx) mainFunc() *ssa.Function {
	for p := range c.w.Repo {
		if p.Pkg.Name() == "main" && p.Func("main") != nil {
			return p.Func("main")
		}
	}
	return nil
}

func (c *Ctx) command(k cmdCase) {
	c.do(k.key, func() {
		c.obligation(1)
		main := c.mainFunc()
		if main == nil {
			c.violate(k.key, "the command has no main function", "")
			return
		}
		before := map[string]string{}
		var after map[string]string
		var events []Event
		code, msg, where := int64(0), "", ""
		n := 0
		explore(c.w, newAtoms(), 2, func(in *Interp) { in.maxSteps = 60_000_000 }, func(in *Interp) Value {
			k.setup(in)
			for f, t := range in.fs().Files {
				before[f] = t
			}
			in.callFn(main, nil, nil)
			return Tuple{S(""), nilErr}
		}, func(r *PathResult) {
			n++
			s := summarize(r)
			c.analysed(s.Funcs)
			after, events = r.In.fs().Files, r.In.fs().Events
			switch {
			case s.Kind == "panic":
				code, msg, where = 2, s.Err, s.Where
			case s.Kind == "exit":
				code = r.Abort.code
			case s.Kind != "script":
				code, msg = -1, s.Kind+": "+s.Err
			}
		})
		if n != 1 {
			code, msg = -1, "undecided: more than one path"
		}
		want := c.cmdExpect(&k)
		var b strings.Builder
		fmt.Fprintf(&b, "tsh %q (working directory %s)\nexit status %d %s\n%s\nexpected: %s\n", k.args, k.cwd, code, msg, where, want.fail)
		for _, e := range events {
			if e.Op != "env" {
				fmt.Fprintf(&b, "  %s %s at %s\n", e.Op, e.Path, e.Site)
			}
		}
		b.WriteString(projText(&Project{Files: k.files}))
		bad := func(what string) { c.violate(k.key, what, b.String()) }
		if code == -1 {
			bad(stripPos(msg))
			return
		}
		if strings.HasPrefix(want.fail, "the library: ") {
			bad(stripPos(want.fail))
			return
		}
		if want.fail == "" && code != 0 {
			bad("the command fails although everything is right")
			return
		}
		if want.fail != "" && code == 0 {
			reason, _, _ := strings.Cut(want.fail, ":")
			bad("the command reports success: " + reason)
		}
		for f, t := range before {
			got, ok := after[f]
			if ok && got == t {
				continue
			}
			lib, out := want.outs[f]
			switch {
			case !ok:
				bad("a file has been removed")
			case !out:
				bad("a file which is not an output has been changed")
			case got != lib:
				bad("an existing output file is neither unchanged nor what the library returns")
			}
		}
		for f, t := range after {
			if _, ok := before[f]; ok {
				continue
			}
			lib, out := want.outs[f]
			switch {
			case !out:
				bad("an unexpected file has been written: " + filepath.Base(f))
			case t != lib:
				bad("an output file differs from what the library returns")
			}
		}
		if want.fail == "" {
			for f, lib := range want.outs {
				if got, ok := after[f]; !ok {
					bad("an output file is missing")
				} else if got != lib {
					bad("an output file differs from what the library returns")
				}
			}
		}
	})
}

func (c *Ctx) cmdCases() {
	prog := "func f(a int) int {\n for i := 0; i < a; i++ {\n  a -= i\n }\n return a\n}\ns := []int{1}\ns[2] = f(3)\nt := \"abc\"\nprint(f(3), t[1:2], len(s))\n"
	one := func(f string) map[string]string { return map[string]string{f: prog} }
	types := [][]string{{"bash"}, {"batch"}, {"bash", "batch"}, {"batch", "bash"}, {"bash", "bash"}, {"batch", "batch"}, {"bash", "batch", "bash"}, {"batch", "bash", "batch"}, {"bash", "bash", "batch", "batch"}, {"batch", "batch", "batch"}, {"bash", "batch", "batch", "bash", "bash"}}
	tArgs := func(ts []string) []string {
		var r []string
		for _, t := range ts {
			r = append(r, "-t", t)
		}
		return r
	}
	cat := func(xs ...[]string) []string {
		var r []string
		for _, x := range xs {
			r = append(r, x...)
		}
		return r
	}
	// option orders and repetitions
	for ti, ts := range types {
		groups := [][]string{{"-i", "/w/main.tsh"}, {"-o", "/out"}}
		for _, t := range ts {
			groups = append(groups, []string{"-t", t})
		}
		n := 0
		var perm func(k int)
		perm = func(k int) {
			if k == len(groups) {
				args := cat(groups...)
				n++
				if len(ts) > 3 && n%11 != 1 && c.quick() {
					return
				}
				for v := 0; v < 2; v++ {
					a := append([]string{}, args...)
					for i := 0; i < len(a); i += 2 {
						if v == 1 && (i/2+n)%2 == 0 {
							a[i] = map[string]string{"-i": "--in", "-o": "--out", "-t": "--type"}[a[i]]
						}
					}
					c.command(cmdCase{key: fmt.Sprintf("order/%d/%d/%d", ti, n, v), args: a, files: one("/w/main.tsh")})
				}
				return
			}
			for i := k; i < len(groups); i++ {
				groups[k], groups[i] = groups[i], groups[k]
				perm(k + 1)
				groups[k], groups[i] = groups[i], groups[k]
			}
		}
		perm(0)
	}
	// file names and directories
	names := []string{"main.tsh", "a.b.tsh", "a.b.c.d", "noext", "with blank.tsh", " lead.tsh", "trail .tsh", ".tsh", ".hidden.tsh", "x.", "x..tsh", "UP.TSH", "x.sh.tsh", "x.bat.tsh", "x.sh", "x.bat", "x.bash", "é€.tsh", "-i.tsh", "-t", "bash", "tsh", "a'b\"c$d.tsh", "a%b.tsh", "..x", "x.tsh.tsh", "main.tsh.", "sh", ".sh", "x.SH", "%s.tsh", "a.sh.bat"}
	outs := []string{"/out", "/out/", ".", "./", "/w", "/out/../out", "/o ut", "/out/a.b", "sub", "../out", "/"}
	for ni, n := range names {
		for oi, o := range outs {
			for ti, ts := range types[:6] {
				if c.quick() && (ni*5+oi*3+ti)%4 != 0 && !(ti < 2 && oi < 2) {
					continue
				}
				for _, dir := range []string{"/w/", "", "./", "/w/s.d/../", "/w/s.d/"} {
					if c.quick() && dir != "/w/" && (ni+oi+ti+len(dir))%3 != 0 {
						continue
					}
					f := dir + n
					if !strings.HasPrefix(f, "/") {
						f = "/w/" + f
					}
					c.command(cmdCase{key: fmt.Sprintf("name/%s%s/%s/%d", dir, n, o, ti), args: cat([]string{"-i", dir + n, "-o", o}, tArgs(ts)), files: map[string]string{filepath.Clean(f): prog}, dirs: []string{"/o ut", "/out/a.b", "/w/sub", "/w/s.d"}})
				}
			}
		}
	}
	// sizes: many targets, long names, deep folders, large programs
	for _, n := range []int{9, 10, 11, 12, 17, c.n(24, 48)} {
		for v := 0; v < 4; v++ {
			var ts []string
			for i := 0; i < n; i++ {
				ts = append(ts, []string{"bash", "batch", types[2][i%2], types[2][(i/(n/2+1))%2]}[v])
			}
			a := [][]string{{"-i", "/w/main.tsh"}, {"-o", "/out"}}
			c.command(cmdCase{key: fmt.Sprintf("many/targets/%d/%d/first", n, v), args: cat(a[0], a[1], tArgs(ts)), files: one("/w/main.tsh")})
			c.command(cmdCase{key: fmt.Sprintf("many/targets/%d/%d/last", n, v), args: cat(tArgs(ts), a[1], a[0]), files: one("/w/main.tsh")})
			bad := append(append([]string{}, ts...), "zsh")
			c.command(cmdCase{key: fmt.Sprintf("many/targets/%d/%d/bad", n, v), args: cat(a[0], a[1], tArgs(bad)), files: one("/w/main.tsh")})
		}
		for i, name := range []string{strings.Repeat("n", n*10) + ".tsh", strings.Repeat("a.", n) + "tsh", strings.Repeat("b ", n) + ".tsh", "x." + strings.Repeat("e", n), strings.Repeat("x", n), strings.Repeat("d/", n) + "main.tsh", strings.Repeat("deepfolder/", n) + "a.b"} {
			o := "/" + strings.Repeat("o/", n)
			for ti, ts := range types[:3] {
				c.command(cmdCase{key: fmt.Sprintf("many/name/%d/%d/%d", n, i, ti), args: cat([]string{"-i", name, "-o", o}, tArgs(ts)), files: one("/w/" + name), dirs: []string{strings.TrimSuffix(o, "/")}})
			}
		}
	}
	for _, n := range []int{c.n(150, 300), c.n(700, 2000)} {
		var b strings.Builder
		for i := 0; i < n; i++ {
			fmt.Fprintf(&b, "print(\"line %d of a program that is larger than a buffer may be\", %d)\n", i, i)
		}
		for ti, ts := range types[:3] {
			for v, tail := range []string{"", "print(undefined)\n", "x := \"open\n"} {
				if n > 600 && c.quick() && ti+v > 1 {
					continue
				}
				fs := map[string]string{"/w/main.tsh": b.String() + tail, "/out/main.sh": "old"}
				c.command(cmdCase{key: fmt.Sprintf("many/lines/%d/%d/%d", n, ti, v), args: cat([]string{"-i", "main.tsh", "-o", "/out"}, tArgs(ts)), files: fs})
			}
		}
	}
	// programs: accepted and rejected
	progs := []schema{}
	for _, s := range totalCorpus() {
		progs = append(progs, s)
	}
	add := func(k, s string) { progs = append(progs, schema{k, s}) }
	add("empty", "")
	add("lex", "x := \"abc\n")
	add("syntax", "x := (1 + \n")
	add("type", "func f() int {\n return 1\n}\nprint(f())\nx := f() + \"s\"\n")
	add("scope", "print(1)\nprint(y)\n")
	add("import", "import l \"nope.tsh\"\n")
	add("importbroken", "import l \"broken.tsh\"\n")
	add("cycle", "import l \"main.tsh\"\nprint(1)\n")
	add("novalue", "func f() {\n}\nx := f()\n")
	add("slicedefault", "a := [][]int{}\na[0] = []int{1}\n")
	add("garbage", "\x00\xff")
	for _, s := range progs {
		fs := map[string]string{"/w/main.tsh": concretise(s.src), "/w/broken.tsh": "x := 1 +\n", "/w/other.tsh": "print(1)\n", "/out/unrelated": "u"}
		for f, t := range layoutFiles {
			fs[f] = t
		}
		fs["/opt/tsh/std/strings.tsh"] = "func Contains(s string, t string) bool {\n return s == t\n}\n"
		for ti, ts := range types[:6] {
			if c.quick() && ti == 3 {
				continue
			}
			c.command(cmdCase{key: fmt.Sprintf("program/%s/%d", s.key, ti), args: cat([]string{"-i", "main.tsh", "-o", "/out"}, tArgs(ts)), files: fs})
			// earlier outputs exist
			g := map[string]string{"/out/main.sh": "old sh, which is longer than nothing\n" + strings.Repeat("#\n", 4000), "/out/main.bat": "old bat"}
			for f, t := range fs {
				g[f] = t
			}
			c.command(cmdCase{key: fmt.Sprintf("stale/%s/%d", s.key, ti), args: cat([]string{"-o", "/out"}, tArgs(ts), []string{"-i", "main.tsh"}), files: g})
		}
	}
	// bad options
	good := []string{"-i", "/w/main.tsh", "-o", "/out", "-t", "bash"}
	for i, a := range [][]string{
		{}, {"-i"}, {"-o"}, {"-t"}, {"-h"}, {"--help"}, {"x"}, {"-i", "/w/main.tsh"}, {"-o", "/out"}, {"-t", "bash"}, {"-i", "/w/main.tsh", "-o", "/out"}, {"-i", "/w/main.tsh", "-t", "bash"}, {"-o", "/out", "-t", "bash"},
		cat(good, []string{"-t"}), cat(good, []string{"-i"}), cat(good, []string{"-x"}), cat(good, []string{""}), cat(good, []string{"bash"}), cat([]string{"-x"}, good), cat([]string{"-x", "1"}, good), cat(good, []string{"-x", "1"}), cat(good, []string{"--verbose", "true"}),
		cat(good, []string{"-t", "zsh"}), cat(good, []string{"-t", ""}), cat(good, []string{"-t", "BASH"}), cat(good, []string{"-t", "sh"}), cat(good, []string{"-t", "bash,batch"}), cat([]string{"-t", "zsh"}, good), {"-i", "/w/main.tsh", "-o", "/out", "-t", "zsh"}, {"-i", "/w/main.tsh", "-o", "/out", "-t", "bat"},
		{"-i", "/w", "-o", "/out", "-t", "bash"}, {"-i", "/w/nope.tsh", "-o", "/out", "-t", "bash"}, {"-i", "", "-o", "/out", "-t", "bash"}, {"-i", "/w/main.tsh", "-o", "/nope", "-t", "bash"}, {"-i", "/w/main.tsh", "-o", "", "-t", "bash"}, {"-i", "/w/main.tsh", "-o", "/w/main.tsh", "-t", "bash"}, {"-i", "/w/main.tsh", "-o", "/out/main.sh", "-t", "bash"}, {"-i", "/w/main", "-o", "/out", "-t", "bash"}, {"-i", "/w/*.tsh", "-o", "/out", "-t", "bash"},
		{"-i", "-o", "/out", "-t", "bash"}, {"-i", "/w/main.tsh", "-o", "-t", "bash"}, {"-I", "/w/main.tsh", "-o", "/out", "-t", "bash"}, {"-in", "/w/main.tsh", "-o", "/out", "-t", "bash"}, {"--i", "/w/main.tsh", "-o", "/out", "-t", "bash"}, {"-i=/w/main.tsh", "-o=/out", "-t=bash"}, {"/w/main.tsh", "-o", "/out", "-t", "bash"}, {"--type", "bash", "--in", "/w/main.tsh", "--out"},
	} {
		c.command(cmdCase{key: fmt.Sprintf("options/%02d", i), args: a, files: one("/w/main.tsh")})
		fs := one("/w/main.tsh")
		fs["/out/main.sh"], fs["/out/main.bat"] = "old", "old"
		c.command(cmdCase{key: fmt.Sprintf("options/stale/%02d", i), args: a, files: fs})
	}
	// the input must not be replaced
	for ti, ts := range types[:8] {
		for _, ext := range []string{"sh", "bat"} {
			f := "/w/x." + ext
			fs := one(f)
			base := cmdCase{files: fs}
			for i, a := range [][]string{{"-i", f, "-o", "/w"}, {"-i", "x." + ext, "-o", "."}, {"-i", "./x." + ext, "-o", "/w/sub/.."}, {"-i", f, "-o", "/w/"}, {"-i", "/w/sub/../x." + ext, "-o", "../w"}, {"-i", f, "-o", "/out"}} {
				k := base
				k.key, k.args, k.dirs = fmt.Sprintf("self/%s/%d/%d", ext, ti, i), cat(a, tArgs(ts)), []string{"/w/sub"}
				c.command(k)
				k.key = fmt.Sprintf("self/links/%s/%d/%d", ext, ti, i)
				k.args = cat([]string{"-i", f, "-o", "/alias"}, tArgs(ts))
				k.links = map[string]string{"/alias": "/w"}
				c.command(k)
				k.key = fmt.Sprintf("self/linked/%s/%d/%d", ext, ti, i)
				k.args = cat([]string{"-i", "/alias/x." + ext, "-o", "/w"}, tArgs(ts))
				c.command(k)
				k.key = fmt.Sprintf("self/linkedfile/%s/%d/%d", ext, ti, i)
				k.args = cat([]string{"-i", "/in/x.tsh", "-o", "/w"}, tArgs(ts))
				k.links = map[string]string{"/in/x.tsh": f}
				k.dirs = []string{"/in", "/w/sub"}
				c.command(k)
			}
		}
	}
	// faults: unreadable input, outputs that cannot be written
	for ti, ts := range types[:6] {
		a := cat([]string{"-i", "/w/main.tsh", "-o", "/out"}, tArgs(ts))
		c.command(cmdCase{key: fmt.Sprintf("fault/unreadable/%d", ti), args: a, files: one("/w/main.tsh"), noRead: []string{"/w/main.tsh"}})
		imp := map[string]string{"/w/main.tsh": "import l \"l.tsh\"\nprint(l.F())\n", "/w/l.tsh": "func F() int {\n return 1\n}\n", "/out/main.sh": "old", "/out/main.bat": "old"}
		c.command(cmdCase{key: fmt.Sprintf("fault/unreadableimport/%d", ti), args: a, files: imp, noRead: []string{"/w/l.tsh"}})
		c.command(cmdCase{key: fmt.Sprintf("fault/import/%d", ti), args: a, files: imp})
		c.command(cmdCase{key: fmt.Sprintf("fault/readonlydir/%d", ti), args: a, files: one("/w/main.tsh"), noAdd: []string{"/out"}})
		for _, e := range []string{"sh", "bat"} {
			fs := one("/w/main.tsh")
			fs["/out/main."+e] = "old"
			c.command(cmdCase{key: fmt.Sprintf("fault/readonly/%s/%d", e, ti), args: a, files: fs, noAdd: []string{"/out/main." + e}})
			c.command(cmdCase{key: fmt.Sprintf("fault/directory/%s/%d", e, ti), args: a, files: one("/w/main.tsh"), dirs: []string{"/out/main." + e}})
		}
	}
}

func init() {
	checks["C19"] = &propCheck{level: "other",
		rule: "main.main of the command is evaluated abstractly (the whole compiler included) over a model of the file system for all option orders, repetitions of targets, file names, directories, accepted and rejected programs, earlier outputs, bad options, links and faults; exit status and all files afterwards must be what the specification of the command derives from the library's result for the same file and target",
		run:  func(c *Ctx) { c.cmdCases() }}
}
