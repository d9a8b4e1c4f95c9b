package main

import (
	"fmt"

	"vh/shared"
)

/*** C26: time and space ***/

// pump finds a way to grow sentences: S =>* x A z, A =>+ u A v, A =>* y.
func (c *CFG) pump(r *Rand, h []int) (x, u, y, v, z []int, ok bool) {
	n := len(c.NTs)
	// edge: an occurrence of a nonterminal in a body
	type edge struct{ nt, alt, pos, to int }
	out := make([][]edge, n)
	for nt, as := range c.Prods {
		for alt, b := range as {
			for pos, s := range b {
				if isNT(s) {
					out[nt] = append(out[nt], edge{nt, alt, pos, ntOf(s)})
				}
			}
		}
	}
	// path: a random walk of at most 12 steps from one to the other
	path := func(from, to int, min int) ([]edge, bool) {
		for try := 0; try < 30; try++ {
			p, at := []edge{}, from
			for len(p) <= 12 {
				if at == to && len(p) >= min {
					return p, true
				}
				if len(out[at]) == 0 {
					break
				}
				e := out[at][r.Intn(len(out[at]))]
				p, at = append(p, e), e.to
			}
		}
		return nil, false
	}
	sides := func(p []edge) (l, rt []int) {
		rs := [][]int{}
		for _, e := range p {
			b := c.Prods[e.nt][e.alt]
			l = append(l, c.deriveSeq(r, h, b[:e.pos], 2)...)
			rs = append(rs, c.deriveSeq(r, h, b[e.pos+1:], 2))
		}
		for i := len(rs) - 1; i >= 0; i-- {
			rt = append(rt, rs[i]...)
		}
		return
	}
	for try := 0; try < 40; try++ {
		a := r.Intn(n)
		p, ok1 := path(0, a, 0)
		q, ok2 := path(a, a, 1)
		if !ok1 || !ok2 {
			continue
		}
		x, z = sides(p)
		u, v = sides(q)
		if len(u)+len(v) == 0 || len(u)+len(v) > 12 || len(x)+len(z) > 30 {
			continue
		}
		y = c.deriveFrom(r, h, a, 4, r.Intn(3))
		return x, u, y, v, z, true
	}
	return
}

// longInputs are long sentences of at most max tokens, and near misses.
func (c *CFG) longInputs(r *Rand, max int) (ws [][]int) {
	h := c.heights()
	for n := r.Intn(4); n > 0; n-- {
		x, u, y, v, z, ok := c.pump(r, h)
		if !ok {
			return
		}
		k := (max - len(x) - len(y) - len(z)) / (len(u) + len(v))
		if k < 1 {
			continue
		}
		k = r.Range(k/2+1, k)
		w := append([]int{}, x...)
		for i := 0; i < k; i++ {
			w = append(w, u...)
		}
		w = append(w, y...)
		for i := 0; i < k; i++ {
			w = append(w, v...)
		}
		w = append(w, z...)
		if r.P(40) {
			m := r.Intn(len(w))
			switch r.Intn(3) {
			case 0:
				w = append(w[:m], w[m+1:]...)
			case 1:
				w[m] = r.Intn(len(c.Terms))
			case 2:
				w = append(w, r.Intn(len(c.Terms)))
			}
		}
		ws = append(ws, w)
	}
	return
}

func (c *CFG) deriveSeq(r *Rand, h []int, b []int, budget int) (w []int) {
	for _, s := range b {
		if isNT(s) {
			w = append(w, c.deriveFrom(r, h, ntOf(s), budget, r.Intn(2))...)
		} else {
			w = append(w, s)
		}
	}
	return
}

// ll1: the alternates of every nonterminal have disjoint sets of first tokens.
func (c *CFG) ll1() bool {
	for nt, as := range c.Prods {
		seen := map[int]bool{}
		for _, b := range as {
			f, nl := c.FirstOf(b)
			if nl {
				for t := range c.follow[nt] {
					f[t] = true
				}
			}
			for t := range f {
				if seen[t] {
					return false
				}
				seen[t] = true
			}
		}
	}
	return true
}

// ll1Syn generates grammars that are often LL(1).
func ll1Syn(r *Rand) *Grammar {
	lits := []string{"a", "b", "c", "+", "*", "(", ")", "if", "then", "=", ",", "[", "]", "x1", "-"}
	k := r.Range(1, 5)
	names := []string{"S", "A", "B", "C", "D"}[:k]
	g := &Grammar{}
	for i, n := range names {
		sr := &SynRule{NT: n}
		off := r.Intn(len(lits))
		for a := r.Range(1, 4); a > 0; a-- {
			alt := []Sym{}
			if r.P(75) {
				alt = append(alt, Sym{KLit, lits[(off+a)%len(lits)]})
			}
			for m := r.Intn(4); m > 0; m-- {
				if r.P(60) {
					alt = append(alt, Sym{KNT, names[r.Intn(k)]})
				} else {
					alt = append(alt, Sym{KLit, lits[r.Intn(len(lits))]})
				}
			}
			sr.Alts = append(sr.Alts, alt)
		}
		if i > 0 && r.P(60) {
			sr.Alts = append(sr.Alts, []Sym{})
		}
		g.Syn = append(g.Syn, sr)
	}
	if r.P(40) { // rules that end in one that derives only the empty string
		e := &SynRule{NT: "E", Alts: [][]Sym{{}}}
		if r.P(30) {
			e.Alts[0] = append(e.Alts[0], Sym{KNT, "F"})
			g.Syn = append(g.Syn, &SynRule{NT: "F", Alts: [][]Sym{{}}})
		}
		for _, sr := range g.Syn {
			for i, alt := range sr.Alts {
				if sr.NT != "F" && len(alt) > 0 && r.P(60) {
					sr.Alts[i] = append(alt, Sym{KNT, "E"})
				}
			}
		}
		g.Syn = append(g.Syn, e)
	}
	return g
}

// stepJobs makes jobs that measure growing inputs of about size tokens.
func stepJobs(r *Rand, g *Grammar, c *CFG, op string, size, n int) (js []*shared.Job) {
	h := c.heights()
	for ; n > 0; n-- {
		x, u, y, v, z, ok := c.pump(r, h)
		if !ok {
			return
		}
		text := func(w []int) string {
			s := ""
			for _, t := range w {
				ws := wordsOf(c.Words[t], c.IsLit[t])
				s += ws[r.Intn(len(ws))] + pick(r, " ", " ", "\n")
			}
			return s
		}
		j := &shared.Job{Op: op, Ins: []string{text(x), text(u), text(y), text(v), text(z)}}
		switch r.Intn(6) {
		case 0: // a wrong token at the end
			j.Ins[4] += pick(r, "?", "$$", pick(r, c.Words...))
		case 1: // the end is missing
			j.Ins[4] = ""
		case 2: // in the middle
			j.Ins[2] += "? "
		}
		j.N = size/(len(u)+len(v)) + 1
		js = append(js, j)
	}
	return
}

const (
	linTokens = 200
	cubTokens = 50
)

func genC26(r *Rand, i int) *Case {
	for {
		c := &Case{MD: r.P(20)}
		switch i % 8 {
		case 0, 1, 2:
			c.Kind = "ll"
			if r.P(50) {
				g := ll1Syn(r)
				if !fixSyn(r, g) {
					continue
				}
				addLex(r, g)
				c.G = g
			} else {
				c.G = genSyn(r, SynOpts{})
			}
			cf := NewCFG(c.G)
			if !cf.ll1() {
				continue
			}
			c.Jobs = stepJobs(r, c.G, cf, "steps", linTokens, 6)
		case 3, 4:
			c.Kind = "gll"
			c.G = genSyn(r, SynOpts{})
			c.Jobs = stepJobs(r, c.G, NewCFG(c.G), "steps2", cubTokens, 4)
		case 5, 6:
			c.Kind, c.Flags = "lr", []string{pick(r, "-knuth", "-pager")}
			c.G = lrSyn(r, SynOpts{LRBias: true, MaxNT: 5})
			cf := NewCFG(c.G)
			t := cf.NewLR(maxLRStates)
			if t == nil || t.Conflict {
				continue
			}
			c.Jobs = stepJobs(r, c.G, cf, "steps", linTokens, 6)
		case 7:
			c.Kind = "lex"
			g, d := genLex(r, LexOpts{Lits: r.P(50), Uni: r.P(30)})
			c.G = g
			ins := lexInputs(r, d, 40, 12)
			for k := 0; k < 8; k++ {
				j := &shared.Job{Op: "lexsteps", N: 100}
				for m := 0; m < 5; m++ {
					j.Ins = append(j.Ins, string(ins[r.Intn(len(ins))]))
				}
				if j.Ins[1]+j.Ins[3] == "" {
					continue
				}
				c.Jobs = append(c.Jobs, j)
			}
		}
		if len(c.Jobs) > 0 {
			return c
		}
	}
}

func init() {
	register(&Prop{
		ID: "C26", N: [2]int{240, 4000}, Batch: 80,
		Rule:   "a case is a generated grammar (LL(1) with a GLL parser; any with a GLL parser; LR(1) with a Knuth or Pager parser; lexical rules only) with up to 8 families of inputs x u^k y v^k z that come from derivations S =>* x A z, A =>+ u A v, A =>* y, some of them with a wrong or missing end; the generated code is instrumented to count the entries of functions and iterations of loops; an evaluation compares the steps and allocated bytes of lexer and parser at two lengths; non-trivial = at least 80 tokens (LL, LR), 32 tokens (any grammar) or 100 characters (lexer) at the shorter length, distinct by (grammar, family)",
		Assume: []string{"constant-time Go operations: map access, append, and comparison of short strings"},
		Gen:    genC26,
		Valid: func(c *Case) bool {
			for _, j := range c.Jobs {
				if len(j.Ins) != 5 {
					return false
				}
			}
			if c.Kind == "lex" {
				return lexValid(false)(c)
			}
			if !synValid(c) {
				return false
			}
			cf := NewCFG(c.G)
			switch c.Kind {
			case "ll":
				return cf.ll1()
			case "lr":
				t := cf.NewLR(maxLRStates)
				return t != nil && !t.Conflict
			}
			return true
		},
		Expand: func(c *Case) []*Unit {
			return []*Unit{{G: c.G, Jobs: c.Jobs, MD: c.MD, Flags: c.Flags, Count: true}}
		},
		Judge: judgeC26,
	})
}

func judgeC26(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
	if f := unitFail(os[0]); f != nil {
		return f
	}
	for k, j := range c.Jobs {
		r := os[0].Res[k]
		what := fmt.Sprintf("input family x %q u %q y %q v %q z %q", j.Ins[0], j.Ins[1], j.Ins[2], j.Ins[3], j.Ins[4])
		if f := resFail(k, what, r); f != nil {
			return f
		}
		l1, p1, l2, p2 := r.Steps[0], r.Steps[1], r.Steps[2], r.Steps[3]
		mult := 8.0
		lin, lina := 13.0, 22.0
		plim, palim := lin, lina
		if j.Op == "steps2" {
			// lexer: linear; parser: n^3, or more than that for small n,
			// (n-c)^3, which is why a doubling again decides
			mult, lin, lina, plim, palim = 2, 4, 6, 12, 12
			if len(r.Steps) > 4 && !r.Steps[1].Over && !r.Steps[3].Over {
				st.C("gll: third size")
				p1, p2 = r.Steps[3], r.Steps[5]
			} else if !p2.Over {
				plim, palim = 14.1, 14.1
			}
		}
		nt := l1.Toks >= 80
		switch c.Kind {
		case "gll":
			nt = l1.Toks >= 32
		case "lex":
			nt = l1.Runes >= 100
		}
		st.Ev(gkey(c, what), nt)
		st.C(c.Kind)
		if p1.OK {
			st.C(c.Kind + ": accepted")
		}
		check := func(name string, a, b shared.Cost, slim, blim float64) *Fail {
			if a.Steps == 0 && a.Bytes == 0 && !a.Over {
				return nil
			}
			fs, fb := float64(b.Steps)/float64(a.Steps+20), float64(b.Bytes)/float64(a.Bytes+4096)
			st.C(fmt.Sprintf("%s %s steps x%.0f", c.Kind, name, fs))
			st.C(fmt.Sprintf("%s %s bytes x%.0f", c.Kind, name, fb))
			if a.Over || b.Over || fs > slim {
				return failf(k, "%s: %s: %d steps for %d tokens (%d characters), %d steps (given up: %v) for %d tokens: %.1f times as many for %.0f times the length", what, name, a.Steps, a.Toks, a.Runes, b.Steps, b.Over, b.Toks, fs, mult)
			}
			if fb > blim {
				return failf(k, "%s: %s: %d bytes allocated for %d tokens (%d characters), %d bytes for %d tokens: %.1f times as many for %.0f times the length", what, name, a.Bytes, a.Toks, a.Runes, b.Bytes, b.Toks, fb, mult)
			}
			return nil
		}
		if f := check("lexer", l1, l2, lin, lina); f != nil {
			return f
		}
		if f := check("parser", p1, p2, plim, palim); f != nil {
			return f
		}
		if nt {
			sample(st, c, what, fmt.Sprintf("parser steps %d -> %d", p1.Steps, p2.Steps))
		}
	}
	return nil
}
