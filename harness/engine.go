package main

import (
	"crypto/sha1"
	"encoding/hex"
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"

	"vh/shared"
)

// Case is one generated case: everything a check needs to run it again.
type Case struct {
	Kind  string        `json:"kind,omitempty"`
	G     *Grammar      `json:"g,omitempty"`
	Text  string        `json:"text,omitempty"`
	MD    bool          `json:"md,omitempty"`
	Flags []string      `json:"flags,omitempty"`
	Jobs  []*shared.Job `json:"jobs,omitempty"`
	Seed  uint64        `json:"seed,omitempty"`
	Args  []string      `json:"args,omitempty"`
}

// Fail is one failure of a case.
type Fail struct {
	Job int
	Msg string
}

func failf(job int, f string, a ...interface{}) *Fail { return &Fail{job, fmt.Sprintf(f, a...)} }

// Stats counts what a case covered.
type Stats struct {
	Eval    int
	NonTriv []string // keys of the non-trivial evaluations
	Class   map[string]int
	Samples []string
}

func newStats() *Stats { return &Stats{Class: map[string]int{}} }

// Ev counts one evaluation; key identifies it, nt tells if it is non-trivial.
func (s *Stats) Ev(key string, nt bool) {
	s.Eval++
	if nt {
		h := sha1.Sum([]byte(key))
		s.NonTriv = append(s.NonTriv, string(h[:8]))
	}
}

func (s *Stats) C(class string)         { s.Class[class]++ }
func (s *Stats) CN(class string, n int) { s.Class[class] += n }

// Prop is one property's check.
type Prop struct {
	ID     string
	N      [2]int // cases: quick, thorough
	Batch  int    // units per batch
	Rule   string
	Assume []string
	Race   bool
	Gen    func(r *Rand, i int) *Case
	Expand func(c *Case) []*Unit
	Judge  func(e *Env, c *Case, outs []*UnitOut, st *Stats) *Fail
	Valid  func(c *Case) bool
	// Direct, if set, runs a case without a batch.
	Direct func(e *Env, c *Case, st *Stats) *Fail
	// NoShrinkGrammar keeps the grammar while shrinking.
	NoShrinkGrammar bool
}

var props = map[string]*Prop{}

func register(p *Prop) { props[p.ID] = p }

func defaultExpand(c *Case) []*Unit {
	return []*Unit{{G: c.G, Text: c.Text, MD: c.MD, Flags: c.Flags, Jobs: c.Jobs}}
}

func (p *Prop) expand(c *Case) []*Unit {
	if p.Expand != nil {
		return p.Expand(c)
	}
	return defaultExpand(c)
}

// caseText is the grammar text of a case, for messages.
func caseText(c *Case) string {
	if c.Text != "" {
		return c.Text
	}
	if c.G != nil {
		return c.G.Text("p")
	}
	return ""
}

type caseResult struct {
	fail *Fail
	st   *Stats
}

// runCases runs cases in batches and judges them.
func (p *Prop) runCases(e *Env, cs []*Case, stopAtFail bool) []caseResult {
	res := make([]caseResult, len(cs))
	if p.Direct != nil {
		var failed atomic.Bool
		parallel(len(cs), func(i int) {
			if failed.Load() && (stopAtFail || e.Fast) {
				return
			}
			st := newStats()
			res[i] = caseResult{p.Direct(e, cs[i], st), st}
			if res[i].fail != nil {
				failed.Store(true)
			}
		})
		return res
	}
	max := p.Batch
	if max == 0 {
		max = 120
	}
	for lo := 0; lo < len(cs); {
		var us []*Unit
		spans := [][2]int{}
		hi := lo
		for hi < len(cs) {
			x := p.expand(cs[hi])
			if len(us) > 0 && len(us)+len(x) > max {
				break
			}
			spans = append(spans, [2]int{len(us), len(us) + len(x)})
			us = append(us, x...)
			hi++
		}
		b := e.RunBatch(us)
		parallel(hi-lo, func(k int) {
			st := newStats()
			sp := spans[k]
			if outs := b.Outs[sp[0]:sp[1]]; anySkipped(outs) {
				// something did not end
				for _, o := range outs {
					if j, why := o.stuck(); why != "" {
						res[lo+k] = caseResult{failf(j, "crash or no end: %s", why), st}
						break
					}
				}
				return
			}
			res[lo+k] = caseResult{p.Judge(e, cs[lo+k], b.Outs[sp[0]:sp[1]], st), st}
		})
		b.Close()
		if stopAtFail {
			for i := lo; i < hi; i++ {
				if res[i].fail != nil {
					return res
				}
			}
		}
		lo = hi
	}
	return res
}

func anySkipped(outs []*UnitOut) bool {
	for _, o := range outs {
		if o.Skipped {
			return true
		}
	}
	return false
}

// Finding is one entry of known_findings.json.
type Finding struct {
	Status   string  `json:"status"` // known or fixed
	Property string  `json:"property"`
	Commit   string  `json:"commit,omitempty"`
	What     string  `json:"what"`
	Cases    []*Case `json:"cases,omitempty"` // fixed: must pass; known: still fail
}

func loadFindings(dir string) (fs []*Finding) {
	b, err := os.ReadFile(filepath.Join(dir, "known_findings.json"))
	if os.IsNotExist(err) {
		return nil
	}
	if err != nil {
		die("known findings: %v", err)
	}
	if err := json.Unmarshal(b, &fs); err != nil {
		die("known findings: %v", err)
	}
	return
}

func (c *Case) size() int {
	b, _ := json.Marshal(c)
	n := len(b)
	if c.G != nil {
		n += 3 * len(c.G.Text("p"))
	}
	return n
}

// shrink reduces a failing case; rounds and time are bounded.
func (p *Prop) shrink(e *Env, c *Case, f *Fail) (*Case, *Fail) {
	if os.Getenv("VH_NOSHRINK") != "" { // for experiments with many bugs
		return c, f
	}
	c0, f0 := c, f
	if f.Job >= 0 && f.Job < len(c.Jobs) && len(c.Jobs) > 1 {
		e.Fast = true
		n := *c
		n.Jobs = []*shared.Job{c.Jobs[f.Job]}
		if r := p.runCases(e, []*Case{&n}, false); r[0].fail != nil {
			c, f = &n, r[0].fail
		}
	}
	start := time.Now()
	e.Fast = true
	for round := 0; round < 25 && time.Since(start) < 100*time.Second; round++ {
		cand := p.candidates(c)
		sort.SliceStable(cand, func(i, j int) bool { return cand[i].size() < cand[j].size() })
		if len(cand) > 90 {
			cand = cand[:90]
		}
		found := false
		rs := p.runCases(e, cand, false)
		for i, r := range rs {
			if r.fail != nil {
				c, f, found = cand[i], r.fail, true
				break
			}
		}
		if !found {
			break
		}
	}
	e.Fast = false
	// with the full time limits it has to fail as well
	if c != c0 {
		if r := p.runCases(e, []*Case{c}, false); r[0].fail != nil {
			return c, r[0].fail
		}
	}
	return c0, f0
}

func (p *Prop) candidates(c *Case) (cs []*Case) {
	add := func(f func(n *Case) bool) {
		n := *c
		if c.G != nil {
			n.G = c.G.Clone()
		}
		if !f(&n) {
			return
		}
		if n.size() >= c.size() {
			return
		}
		if p.Valid != nil && !p.Valid(&n) {
			return
		}
		cs = append(cs, &n)
	}
	if len(c.Jobs) > 1 {
		for k := range c.Jobs {
			k := k
			add(func(n *Case) bool { n.Jobs = []*shared.Job{c.Jobs[k]}; return true })
			add(func(n *Case) bool {
				n.Jobs = append(append([]*shared.Job{}, c.Jobs[:k]...), c.Jobs[k+1:]...)
				return true
			})
		}
	}
	if len(c.Jobs) == 1 {
		j := c.Jobs[0]
		for _, in := range shrinkRunes(j.InputRunes()) {
			in := in
			add(func(n *Case) bool {
				m := *j
				if j.Runes != nil {
					m.Runes = in
				} else {
					m.Input = string(in)
				}
				n.Jobs = []*shared.Job{&m}
				return true
			})
		}
		for k := range j.Ins {
			k := k
			add(func(n *Case) bool {
				m := *j
				m.Ins = append(append([]string{}, j.Ins[:k]...), j.Ins[k+1:]...)
				n.Jobs = []*shared.Job{&m}
				return len(m.Ins) > 0
			})
		}
	}
	for k := range c.Flags {
		k := k
		if c.Flags[k] == "-knuth" || c.Flags[k] == "-pager" {
			continue
		}
		add(func(n *Case) bool {
			n.Flags = append(append([]string{}, c.Flags[:k]...), c.Flags[k+1:]...)
			return true
		})
	}
	if c.MD {
		add(func(n *Case) bool { n.MD = false; return true })
	}
	if c.G != nil && !p.NoShrinkGrammar {
		for _, g := range shrinkGrammar(c.G) {
			g := g
			add(func(n *Case) bool { n.G = g; return true })
		}
	}
	if c.Text != "" && c.G == nil {
		ls := strings.SplitAfter(c.Text, "\n")
		for k := range ls {
			k := k
			add(func(n *Case) bool {
				n.Text = strings.Join(append(append([]string{}, ls[:k]...), ls[k+1:]...), "")
				return true
			})
		}
		for _, in := range shrinkRunes([]rune(c.Text)) {
			in := in
			add(func(n *Case) bool { n.Text = string(in); return true })
		}
	}
	return
}

func shrinkRunes(in []rune) (out [][]rune) {
	n := len(in)
	if n == 0 {
		return
	}
	for sz := n; sz >= 1; sz /= 2 {
		for lo := 0; lo < n; lo += sz {
			hi := lo + sz
			if hi > n {
				hi = n
			}
			out = append(out, append(append([]rune{}, in[:lo]...), in[hi:]...))
		}
	}
	if len(out) > 40 {
		out = out[:40]
	}
	return
}

func shrinkGrammar(g *Grammar) (gs []*Grammar) {
	mod := func(f func(n *Grammar)) {
		n := g.Clone()
		n.Order = nil
		f(n)
		gs = append(gs, n)
	}
	if g.Order != nil {
		mod(func(n *Grammar) {})
	}
	for i := range g.Lex {
		i := i
		mod(func(n *Grammar) { n.Lex = append(n.Lex[:i], n.Lex[i+1:]...) })
		if g.Lex[i].Supp {
			mod(func(n *Grammar) { n.Lex[i].Supp = false })
		}
		for _, re := range shrinkRe(g.Lex[i].Re) {
			re := re
			mod(func(n *Grammar) { n.Lex[i].Re = re })
		}
	}
	for i, r := range g.Syn {
		i := i
		if i > 0 {
			mod(func(n *Grammar) { n.Syn = append(n.Syn[:i], n.Syn[i+1:]...) })
			// replace by its alternates
			for _, a := range r.Alts {
				a := a
				mod(func(n *Grammar) {
					n.Syn = append(n.Syn[:i], n.Syn[i+1:]...)
					for _, o := range n.Syn {
						for k, b := range o.Alts {
							nb := []Sym{}
							for _, s := range b {
								if s.K == KNT && s.N == r.NT {
									nb = append(nb, a...)
								} else {
									nb = append(nb, s)
								}
							}
							o.Alts[k] = nb
						}
					}
				})
			}
		}
		for k, a := range r.Alts {
			k := k
			if len(r.Alts) > 1 {
				mod(func(n *Grammar) { n.Syn[i].Alts = append(n.Syn[i].Alts[:k], n.Syn[i].Alts[k+1:]...) })
			}
			for s := range a {
				s := s
				mod(func(n *Grammar) {
					b := n.Syn[i].Alts[k]
					n.Syn[i].Alts[k] = append(append([]Sym{}, b[:s]...), b[s+1:]...)
				})
			}
		}
	}
	return
}

func shrinkRe(re []*Lex) (out [][]*Lex) {
	for i, l := range re {
		if len(re) > 1 {
			out = append(out, append(cloneRe(re[:i]), cloneRe(re[i+1:])...))
		}
		splice := func(mid []*Lex) {
			out = append(out, append(append(cloneRe(re[:i]), cloneRe(mid)...), cloneRe(re[i+1:])...))
		}
		for k, a := range l.Alts {
			splice(a)
			if len(l.Alts) > 1 {
				c := cloneRe([]*Lex{l})[0]
				c.Alts = append(c.Alts[:k], c.Alts[k+1:]...)
				splice([]*Lex{c})
			}
			for _, b := range shrinkRe(a) {
				c := cloneRe([]*Lex{l})[0]
				c.Alts[k] = b
				splice([]*Lex{c})
			}
		}
		if (l.K == LAnyOf || l.K == LNot) && len([]rune(l.S)) > 1 {
			rs := []rune(l.S)
			for k := range rs {
				c := *l
				c.S = string(rs[:k]) + string(rs[k+1:])
				splice([]*Lex{&c})
			}
		}
		if l.K == LUSet && len(l.U) > 1 {
			for k := range l.U {
				c := *l
				c.U = append(append([]USpec{}, l.U[:k]...), l.U[k+1:]...)
				splice([]*Lex{&c})
			}
		}
	}
	return
}

// Main runs one property's check and returns the exit code.
func runProp(p *Prop, verif string, seed int64, tier string, replay string) int {
	start := time.Now()
	e := NewEnv()
	defer cleanup()
	e.Race = p.Race
	if replay != "" {
		b, err := os.ReadFile(replay)
		if err != nil {
			die("replay: %v", err)
		}
		rp := &Replay{}
		if err := json.Unmarshal(b, rp); err != nil {
			die("replay: %v", err)
		}
		r := p.runCases(e, []*Case{rp.Case}, false)
		if f := r[0].fail; f != nil {
			fmt.Printf("%s\n%s\n", caseText(rp.Case), f.Msg)
			fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, replay)
			return 1
		}
		fmt.Printf("replay %s: the property holds\n", replay)
		return 0
	}

	viol := []*Replay{}
	// known findings and regressions of fixed defects
	fs, cs, of := []*Finding{}, []*Case{}, []int{}
	for _, f := range loadFindings(verif) {
		if f.Property == p.ID {
			for range f.Cases {
				of = append(of, len(fs))
			}
			fs, cs = append(fs, f), append(cs, f.Cases...)
		}
	}
	failing := make([]int, len(fs))
	if len(cs) > 0 {
		for i, r := range p.runCases(e, cs, false) {
			if r.fail == nil {
				continue
			}
			f := fs[of[i]]
			failing[of[i]]++
			if f.Status == "fixed" {
				viol = append(viol, &Replay{p.ID, cs[i], "regression of: " + f.What + "\n" + r.fail.Msg})
			}
		}
	}
	for i, f := range fs {
		if f.Status == "known" {
			if failing[i] > 0 {
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", p.ID, f.What)
			} else {
				fmt.Printf("note: known finding no longer reproduces: property=%s %s\n", p.ID, f.What)
			}
		}
	}

	n := p.N[0]
	if tier == "thorough" {
		n = p.N[1]
	}
	tot := newStats()
	nt := map[string]bool{}
	samples := []interface{}{}
	ncases := 0
	gen := NewRand(seed, p.ID)
	const chunk = 400
	for lo := 0; lo < n && len(viol) == 0; lo += chunk {
		hi := lo + chunk
		if hi > n {
			hi = n
		}
		cs := make([]*Case, hi-lo)
		rs := make([]*Rand, hi-lo)
		for i := range rs {
			rs[i] = gen.Fork()
		}
		parallel(len(cs), func(i int) { cs[i] = p.Gen(rs[i], lo+i) })
		out := p.runCases(e, cs, true)
		for i, r := range out {
			if r.st == nil {
				continue
			}
			ncases++
			tot.Eval += r.st.Eval
			for k, v := range r.st.Class {
				tot.Class[k] += v
			}
			for _, k := range r.st.NonTriv {
				nt[k] = true
			}
			if len(samples) < 6 && len(r.st.Samples) > 0 {
				samples = append(samples, r.st.Samples[0])
			}
			if r.fail != nil && len(viol) == 0 {
				fmt.Printf("failing case %d; shrinking\n", lo+i)
				sc, sf := p.shrink(e, cs[i], r.fail)
				viol = append(viol, &Replay{p.ID, sc, sf.Msg})
			}
		}
	}

	cov := map[string]interface{}{
		"evaluations":         tot.Eval,
		"distinct_nontrivial": len(nt),
		"rule":                p.Rule,
		"samples":             samples,
		"cases":               ncases,
		"classes":             tot.Class,
		"exhaustive":          false,
	}
	ev := map[string]interface{}{
		"property": p.ID, "tier": tier, "seed": seed, "level": "exploration",
		"coverage": cov, "assumptions": p.Assume, "wall_s": time.Since(start).Seconds(), "violations": len(viol),
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		die("evidence: %v", err)
	}
	writeFile(filepath.Join(verif, "evidence", p.ID+".json"), string(b)+"\n")
	if len(viol) == 0 {
		fmt.Printf("property=%s tier=%s seed=%d: held; cases=%d evaluations=%d distinct_nontrivial=%d wall=%.1fs\n",
			p.ID, tier, seed, ncases, tot.Eval, len(nt), time.Since(start).Seconds())
		return 0
	}
	for _, v := range viol {
		b, _ := json.MarshalIndent(v, "", " ")
		h := sha1.Sum(b)
		path := filepath.Join(verif, "replay", p.ID+"-"+hex.EncodeToString(h[:5])+".json")
		writeFile(path, string(b)+"\n")
		fmt.Printf("--- grammar\n%s--- %s\n", caseText(v.Case), clip(v.Msg, 4000))
		fmt.Printf("VIOLATION property=%s replay=%s\n", p.ID, path)
	}
	return 1
}

// Replay is the content of a replay file.
type Replay struct {
	Property string `json:"property"`
	Case     *Case  `json:"case"`
	Msg      string `json:"msg"`
}
