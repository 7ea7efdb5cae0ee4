package main

import (
	"encoding/json"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"
)

// ---------------------------------------------------------------- obligations, findings, evidence

type Violation struct {
	Key    string // obligation (schema / rule instance)
	What   string // normalised description, no line numbers of scripts
	Detail string // full report
}

type Ctx struct {
	w        *World
	a        *Anchors
	prop     string
	tier     string
	seed     int64
	start    time.Time
	mu       sync.Mutex
	obl      int
	paths    int
	skipped  int
	bounded  int
	viol     []Violation
	counts   map[string]int
	samples  []any
	funcs    map[string]int
	jobs     []func()
	seen     map[string]bool
	rejected int
	mut      int
	collect  func(key string, p *Project) // set: programs are only listed
}

func (c *Ctx) quick() bool { return c.tier != "thorough" }

// n chooses a bound by tier.
func (c *Ctx) n(quick, thorough int) int {
	if c.quick() {
		return quick
	}
	return thorough
}

func (c *Ctx) violate(key, what, detail string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	k := key + "\x00" + what
	if c.seen[k] {
		return
	}
	c.seen[k] = true
	c.viol = append(c.viol, Violation{key, what, detail})
}

// total gives the number of violations so far.
func (c *Ctx) total() int {
	c.mu.Lock()
	defer c.mu.Unlock()
	return len(c.viol)
}

func (c *Ctx) count(what string, n int) {
	c.mu.Lock()
	c.counts[what] += n
	c.mu.Unlock()
}

func (c *Ctx) obligation(n int) {
	c.mu.Lock()
	c.obl += n
	c.mu.Unlock()
}

func (c *Ctx) sample(v any) {
	c.mu.Lock()
	if len(c.samples) < 6 {
		c.samples = append(c.samples, v)
	}
	c.mu.Unlock()
}

func (c *Ctx) analysed(fs map[*cfunc]int) {
	c.mu.Lock()
	for f, n := range fs {
		c.funcs[f.name] += n
	}
	c.mu.Unlock()
}

// do queues one job.
func (c *Ctx) do(key string, f func()) {
	if c.collect != nil {
		return
	}
	c.jobs = append(c.jobs, func() {
		defer func() {
			if e := recover(); e != nil {
				c.violate(key, "the analysis itself failed", fmt.Sprintf("internal error of the checker on %s: %v\n%s", key, e, debug.Stack()))
			}
		}()
		f()
	})
}

func (c *Ctx) runJobs() {
	n := runtime.NumCPU()
	ch := make(chan func())
	var wg sync.WaitGroup
	for i := 0; i < n; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for f := range ch {
				f()
			}
		}()
	}
	for _, f := range c.jobs {
		ch <- f
	}
	close(ch)
	wg.Wait()
	c.jobs = nil
}

// ---- known findings

type known struct {
	prop, key, what string
	used            bool
}

func verifDir() string {
	if d := os.Getenv("VERIF_DIR"); d != "" {
		return d
	}
	return "/verif"
}

// loadKnown reads known_findings.txt. Entries:
//
//	known: property=<id> key=<obligation key> what=<failure text>
//	fixed: property=<id> <commit> <what failed>
func loadKnown() ([]*known, error) {
	b, err := os.ReadFile(filepath.Join(verifDir(), "known_findings.txt"))
	if err != nil {
		if os.IsNotExist(err) {
			return nil, nil
		}
		return nil, err
	}
	var r []*known
	for _, l := range strings.Split(string(b), "\n") {
		rest, ok := strings.CutPrefix(l, "known: property=")
		if !ok {
			continue
		}
		p, rest, ok1 := strings.Cut(rest, " key=")
		k, what, ok2 := strings.Cut(rest, " what=")
		if !ok1 || !ok2 {
			return nil, fmt.Errorf("malformed entry %q", l)
		}
		r = append(r, &known{prop: p, key: k, what: what})
	}
	return r, nil
}

func oneLine(s string) string {
	return strings.Join(strings.Fields(strings.ReplaceAll(s, "\n", " ")), " ")
}

func slug(s string) string {
	h := fnv.New32a()
	h.Write([]byte(s))
	var b strings.Builder
	for _, c := range s {
		if c >= 'a' && c <= 'z' || c >= 'A' && c <= 'Z' || c >= '0' && c <= '9' || c == '-' {
			b.WriteRune(c)
		} else {
			b.WriteByte('_')
		}
		if b.Len() > 50 {
			break
		}
	}
	return fmt.Sprintf("%s-%08x", b.String(), h.Sum32())
}

// report prints the verdict, writes the evidence and returns the exit status.
func (c *Ctx) report(level, rule string, extra map[string]any) int {
	kn, err := loadKnown()
	if err != nil {
		c.violate("known-findings", err.Error(), err.Error())
	}
	sort.Slice(c.viol, func(i, j int) bool {
		if c.viol[i].Key != c.viol[j].Key {
			return c.viol[i].Key < c.viol[j].Key
		}
		return c.viol[i].What < c.viol[j].What
	})
	dir := filepath.Join(verifDir(), "evidence", "replay", c.prop)
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)
	fresh := 0
	knownHits := []string{}
	for _, v := range c.viol {
		what := oneLine(v.What)
		hit := false
		for _, k := range kn {
			if k.prop == c.prop && k.key == v.Key && k.what == what {
				hit = true
				break
			}
		}
		if hit {
			fmt.Printf("KNOWN-FINDING: property=%s %s: %s\n", c.prop, v.Key, what)
			knownHits = append(knownHits, v.Key)
			continue
		}
		fresh++
		f := filepath.Join(dir, slug(v.Key+v.What)+".txt")
		os.WriteFile(f, []byte(fmt.Sprintf("property %s\nobligation %s\nfailure: %s\n\n%s\n", c.prop, v.Key, v.What, v.Detail)), 0o644)
		if fresh <= 15 {
			fmt.Printf("--- %s\n    %s\n", v.Key, what)
			fmt.Println("    " + strings.ReplaceAll(strings.TrimSpace(v.Detail), "\n", "\n    "))
		}
		if fresh <= 60 {
			fmt.Printf("VIOLATION property=%s replay=%s\n", c.prop, f)
		}
		if os.Getenv("VERIF_LISTKEYS") != "" {
			fmt.Printf("known: property=%s key=%s what=%s\n", c.prop, v.Key, what)
		}
	}
	if fresh > 60 {
		fmt.Printf("(%d further violations written to %s)\n", fresh-60, dir)
	}
	fn := []string{}
	for f := range c.funcs {
		fn = append(fn, f)
	}
	sort.Strings(fn)
	repoFuncs := []string{}
	for _, f := range fn {
		if strings.Contains(f, "typeshell") {
			repoFuncs = append(repoFuncs, f)
		}
	}
	cov := map[string]any{
		"rule":                       rule,
		"explanation":                rule,
		"obligations":                c.obl,
		"discharged":                 c.obl - len(c.viol),
		"programs":                   c.obl,
		"disagreements_checked":      c.paths,
		"evaluations":                c.obl,
		"distinct_nontrivial":        c.obl - c.rejected,
		"paths_compared":             c.paths,
		"paths_without_meaning":      c.skipped,
		"programs_cut_at_path_bound": c.bounded,
		"counts":                     c.counts,
		"samples":                    c.samples,
		"functions_of_repo_analysed": repoFuncs,
		"functions_analysed_total":   len(fn),
		"known_findings_seen":        knownHits,
	}
	for k, v := range extra {
		cov[k] = v
	}
	ev := map[string]any{
		"property": c.prop, "tier": c.tier, "seed": c.seed, "level": level, "coverage": cov,
		"assumptions": []string{"the models of Bash and cmd.exe in /verif/checker", "the reference front-end in /verif/checker", "opaque atoms are in generic position", "semantics of the Go standard library as read from its source or modelled in intrinsics.go"},
		"wall_s":      time.Since(c.start).Seconds(), "violations": fresh,
	}
	b, _ := json.MarshalIndent(ev, "", " ")
	os.MkdirAll(filepath.Join(verifDir(), "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(verifDir(), "evidence", c.prop+".json"), b, 0o644); err != nil {
		fmt.Println("cannot write evidence:", err)
	}
	fmt.Printf("%s: %d obligations, %d value paths compared, %d functions of the repository analysed, %d violations, %d known findings, %.1f s\n",
		c.prop, c.obl, c.paths, len(repoFuncs), fresh, len(knownHits), time.Since(c.start).Seconds())
	if fresh > 0 {
		return 1
	}
	return 0
}

type propCheck struct {
	level string
	rule  string
	run   func(c *Ctx)
}

var checks = map[string]*propCheck{}

func runCheck(prop string) int {
	p := checks[prop]
	if p == nil {
		fmt.Println("unknown property", prop)
		return 2
	}
	c := &Ctx{prop: prop, tier: os.Getenv("VERIF_TIER"), start: time.Now(), counts: map[string]int{}, funcs: map[string]int{}, seen: map[string]bool{}}
	if c.tier != "thorough" {
		c.tier = "quick"
	}
	c.seed, _ = strconv.ParseInt(os.Getenv("VERIF_SEED"), 10, 64)
	if w, err := loadWorld(); err != nil {
		c.violate("load", "the source of the repository cannot be analysed", err.Error())
	} else if a, err := w.anchors(); err != nil {
		c.violate("anchors", "an anchored construct is gone", err.Error())
	} else {
		c.w, c.a = w, a
		func() {
			defer func() {
				if e := recover(); e != nil {
					c.violate("checker", "the analysis itself failed", fmt.Sprintf("%v\n%s", e, debug.Stack()))
				}
			}()
			p.run(c)
			c.runJobs()
		}()
	}
	return c.report(p.level, p.rule, nil)
}

// ---------------------------------------------------------------- the common program obligation

type progOpt struct {
	targets  []string
	world    func() *WorldModel
	stderrOK bool
	maxPaths int
	maxCh    int
	nocheck  bool // only acceptance and well-formedness
	proj     *Project
	worlds   []namedWorld // the script is compared in each of these environments
	orReject bool         // the program may also be rejected
	hazards  bool         // the shell models' hazard notes are violations
}

type namedWorld struct {
	name string
	mk   func(at *Atoms) *WorldModel
}

var bothTargets = []string{"bash", "batch"}

// program queues: the schema must be accepted and its script must mean what the program means.
func (c *Ctx) program(key, src string, o progOpt) {
	if c.collect != nil {
		if o.proj != nil {
			c.collect(key, o.proj)
		} else {
			c.collect(key, oneFile(src))
		}
		return
	}
	c.do(key, func() { c.programNow(key, src, o) })
}

func (c *Ctx) programNow(key, src string, o progOpt) {
	p := o.proj
	if p == nil {
		p = oneFile(src)
	}
	pr := prepare(p)
	m, rerr := refCheck(pr)
	if rerr != nil {
		c.count("rejected by the reference (not an obligation)", 1)
		c.mu.Lock()
		c.rejected++
		c.mu.Unlock()
		if os.Getenv("VERIF_REJ") != "" {
			fmt.Printf("REJ %s: %v\n%s\n", key, rerr, src)
		}
		return
	}
	if o.targets == nil {
		o.targets = []string{"bash"}
	}
	if o.maxPaths == 0 {
		o.maxPaths = 60
	}
	if o.maxCh == 0 {
		o.maxCh = 24
	}
	for _, t := range o.targets {
		k := key
		if len(o.targets) > 1 {
			k += "/" + t
		}
		c.obligation(1)
		r := c.a.transpileOne(pr, t)
		c.analysed(r.Funcs)
		if r.Kind == "error" && o.orReject {
			c.count("rejected spellings", 1)
			continue
		}
		if r.Kind != "script" {
			c.violate(k, fmt.Sprintf("accepted program is not translated: %s", kindText(r)), c.progDetail(src, p, r, nil, pr))
			continue
		}
		if o.nocheck {
			continue
		}
		sc := r.Script.flat()
		run, bits := shellRun(bashRun), 64
		if t == "batch" {
			run, bits = cmdRun, 32
		}
		ws := o.worlds
		if ws == nil {
			ws = []namedWorld{{}}
		}
		k0 := k
		for wi, wd := range ws {
			k = k0 + wd.name
			mk := o.world
			if wd.mk != nil {
				mk = func() *WorldModel { return wd.mk(pr.Atoms) }
			}
			if wi > 0 {
				c.obligation(1)
			}
			e := equiv(pr.Atoms, m, sc, run, bits, mk, o.maxPaths, o.maxCh, eqOpt{o.stderrOK, o.hazards})
			c.mu.Lock()
			c.paths += e.Paths
			c.skipped += e.Skipped
			c.mu.Unlock()
			if e.Bound != "" {
				c.mu.Lock()
				c.bounded++
				c.mu.Unlock()
			}
			if e.Mis != nil {
				c.violate(k, e.Mis.What, c.progDetail(src, p, r, e.Mis, pr))
			} else if e.Limit != "" {
				c.violate(k, "the emitted script leaves the modelled part of the shell: "+e.Limit, c.progDetail(src, p, r, nil, pr))
			} else if h := fnv.New32a(); func() bool { h.Write([]byte(k)); return h.Sum32()%97 == 1 }() {
				c.sample(map[string]any{"key": k, "source": src, "value_paths": e.Paths})
			}
		}
	}
}

func kindText(r *CompResult) string {
	switch r.Kind {
	case "error":
		return "error: " + r.Err
	case "panic":
		return "panic: " + r.Err
	}
	return r.Kind + ": " + r.Err
}

func (c *Ctx) progDetail(src string, p *Project, r *CompResult, m *Mismatch, pr *Prepared) string {
	var b strings.Builder
	if r.Kind != "script" {
		if r.ErrOrg.IsValid() {
			fmt.Fprintf(&b, "rejected at %s\n", c.w.pos(r.ErrOrg))
		}
		if r.Where != "" {
			fmt.Fprintf(&b, "path: %s\n", r.Where)
		}
		if r.Kind == "undecided" || r.Kind == "diverge" || r.Kind == "bound" {
			fmt.Fprintf(&b, "%s\n", r.Err)
		}
	}
	if m != nil {
		if m.Path != "" {
			fmt.Fprintf(&b, "on the value path: %s\n", m.Path)
		}
		if m.Line > 0 {
			fmt.Fprintf(&b, "script line %d: %s\nemitted by %s\n", m.Line, scriptLine(pr.Atoms, r.Script.flat(), m.Line), c.w.lineSite(r.Script, m.Line))
		}
	}
	if p != nil && len(p.Files) > 1 {
		for _, f := range sortedKeys(p.Files) {
			fmt.Fprintf(&b, "--- file %s\n%s\n", f, p.Files[f])
		}
	} else if p != nil {
		fmt.Fprintf(&b, "program:\n%s\n", p.Files[p.Main])
	}
	if r.Kind == "script" {
		s := pr.Atoms.show(r.Script.flat())
		if len(s) < 9000 {
			fmt.Fprintf(&b, "script:\n%s\n", s)
		}
	}
	return b.String()
}
