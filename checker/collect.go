package main

import (
	"fmt"
	"sort"
	"strings"
)

// collected gives the programs of other checks (unique texts), the same ones in every run.
func (c *Ctx) collected(ids ...string) []collectedProg {
	var r []collectedProg
	seen := map[string]bool{}
	for _, id := range ids {
		d := &Ctx{w: c.w, a: c.a, prop: id, tier: "quick", seed: 1, counts: map[string]int{}, funcs: map[string]int{}, seen: map[string]bool{}}
		d.collect = func(key string, p *Project) {
			h := ""
			for _, f := range sortedKeys(p.Files) {
				h += f + "\x00" + p.Files[f] + "\x00" + p.Digest[f] + "\x00"
			}
			if !seen[h] {
				seen[h] = true
				r = append(r, collectedProg{id + "/" + key, p})
			}
		}
		checks[id].run(d)
	}
	return r
}

type collectedProg struct {
	key string
	p   *Project
}

// spread chooses about n of the programs so that every family (the key without its last part) keeps some.
func spread(ps []collectedProg, n int, seed int64) []collectedProg {
	if len(ps) <= n {
		return ps
	}
	type slot struct {
		i    int
		rank uint64
	}
	var s []slot
	for i, p := range ps {
		h := uint64(14695981039346656037) ^ uint64(seed)
		for _, b := range []byte(p.key) {
			h = (h ^ uint64(b)) * 1099511628211
		}
		h ^= h >> 29
		h *= 0xbf58476d1ce4e5b9
		h ^= h >> 32
		s = append(s, slot{i, h})
	}
	sort.Slice(s, func(a, b int) bool { return s[a].rank < s[b].rank })
	s = s[:n]
	sort.Slice(s, func(a, b int) bool { return s[a].i < s[b].i })
	var r []collectedProg
	for _, x := range s {
		r = append(r, ps[x.i])
	}
	return r
}

func (p collectedProg) String() string { return fmt.Sprintf("%s\n%s", p.key, projText(p.p)) }

func (c *Ctx) verdict(src string) string {
	if c.collect != nil {
		return ""
	}
	v, _ := refJudge(prepare(oneFile(src)))
	return v
}

// cmdNeutral: no literal of the program has characters with a meaning for cmd.exe (chars/* decides about these).
func cmdNeutral(p *Project) bool {
	for _, s := range p.Files {
		toks, err := refLex(s, false)
		if err != nil {
			continue
		}
		for _, t := range toks {
			if t.Kind == tString && strings.ContainsAny(t.V, "\"%&|<>^!()\n\r") {
				return false
			}
		}
	}
	return true
}

// corpora is a cross-section of the programs of the other checks.
func corpora(c *Ctx, scale float64) []collectedProg {
	var r []collectedProg
	for _, x := range []struct {
		id string
		n  float64
	}{{"C01", 500}, {"C02", 400}, {"C03", 400}, {"C04", 400}, {"C06", 1200}, {"C07", 900}, {"C08", 500}, {"C09", 900}, {"C17", 300}, {"C18", 400}} {
		n := int(x.n * scale)
		if !c.quick() {
			n *= 6
		}
		ps := c.collected(x.id)
		c.count("programs of "+x.id, len(ps))
		r = append(r, spread(ps, n, c.seed)...)
	}
	return r
}

// concrete gives the texts of the program without opaque parts.
func (p collectedProg) concrete() *Project {
	q := &Project{Main: p.p.Main, Files: map[string]string{}}
	for f, s := range p.p.Files {
		q.Files[f] = concretise(s)
	}
	return q
}
