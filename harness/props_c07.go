package main

import (
	"vh/shared"
)

/*** C07: token references and laws of regular expressions ***/

// inlineRefs replaces every reference by a group with the referenced body.
func inlineRefs(g *Grammar) *Grammar {
	c := g.Clone()
	body := map[string][]*Lex{}
	var sub func(re []*Lex) []*Lex
	sub = func(re []*Lex) (out []*Lex) {
		for _, l := range re {
			if l.K == LRef {
				out = append(out, brk(LGroup, cloneRe(body[l.S])))
				continue
			}
			n := *l
			n.Alts = nil
			for _, a := range l.Alts {
				n.Alts = append(n.Alts, sub(a))
			}
			out = append(out, &n)
		}
		return
	}
	for _, l := range c.Lex {
		l.Re = sub(l.Re)
		body[l.ID] = l.Re
	}
	return c
}

// lawRe rewrites a regular expression by laws that keep its language.
func lawRe(r *Rand, re []*Lex, st map[string]int) (out []*Lex) {
	for _, l := range re {
		n := *l
		n.Alts = nil
		for _, a := range l.Alts {
			n.Alts = append(n.Alts, lawRe(r, a, st))
		}
		law := func(s string) bool {
			if r.P(60) {
				st[s]++
				return true
			}
			return false
		}
		if len(n.Alts) > 1 && law("alternation order") {
			p := r.Perm(len(n.Alts))
			as := [][]*Lex{}
			for _, i := range p {
				as = append(as, n.Alts[i])
			}
			n.Alts = as
		}
		if len(n.Alts) > 0 && r.P(15) {
			st["repeated alternative"]++
			n.Alts = append(n.Alts, cloneRe(n.Alts[r.Intn(len(n.Alts))]))
		}
		x := []*Lex{&n}
		switch {
		case n.K == LPlus && law("<x> = (x) {x}"):
			m := n
			m.K = LStar
			m.Alts = nil
			for _, a := range n.Alts {
				m.Alts = append(m.Alts, cloneRe(a))
			}
			x = []*Lex{brk(LGroup, n.Alts...), &m}
		case n.K == LPlus && law("<x> = {x} (x)"):
			m := n
			m.K = LStar
			m.Alts = nil
			for _, a := range n.Alts {
				m.Alts = append(m.Alts, cloneRe(a))
			}
			x = []*Lex{&m, brk(LGroup, n.Alts...)}
		case n.K == LStar && law("{x} = [<x>]"):
			x = []*Lex{brk(LOpt, []*Lex{brk(LPlus, n.Alts...)})}
		case n.K == LStar && law("{x} = {x}{x}"):
			m := n
			m.Alts = nil
			for _, a := range n.Alts {
				m.Alts = append(m.Alts, cloneRe(a))
			}
			x = []*Lex{&m, &n}
		case n.K == LOpt && law("[x] = [[x]]"):
			x = []*Lex{brk(LOpt, []*Lex{&n})}
		case n.K == LAnyOf && law("any = group"):
			as := [][]*Lex{}
			for _, c := range n.S {
				as = append(as, []*Lex{ch(string(c))})
			}
			x = []*Lex{brk(LGroup, as...)}
		case n.K == LGroup && len(n.Alts) == 1 && law("(x) = x"):
			x = n.Alts[0]
		case n.K == LChar && r.P(20):
			st["char = any"]++
			x = []*Lex{{K: LAnyOf, S: n.S}}
		}
		if r.P(15) {
			st["x = (x)"]++
			x = []*Lex{brk(LGroup, x)}
		}
		out = append(out, x...)
	}
	if len(out) > 1 && r.P(15) {
		st["x y = (x y)"]++
		out = []*Lex{brk(LGroup, out)}
	}
	return
}

func lawG(g *Grammar, seed int64, st map[string]int) *Grammar {
	r := NewRand(seed)
	c := g.Clone()
	for _, l := range c.Lex {
		l.Re = lawRe(r, l.Re, st)
	}
	return c
}

func hasRef(g *Grammar) bool {
	var f func(re []*Lex) bool
	f = func(re []*Lex) bool {
		for _, l := range re {
			if l.K == LRef {
				return true
			}
			for _, a := range l.Alts {
				if f(a) {
					return true
				}
			}
		}
		return false
	}
	for _, l := range g.Lex {
		if f(l.Re) {
			return true
		}
	}
	return false
}

func c07Other(c *Case, st map[string]int) *Grammar {
	if c.Kind == "inline" {
		return inlineRefs(c.G)
	}
	return lawG(c.G, int64(c.Seed), st)
}

func init() {
	register(&Prop{
		ID: "C07", N: [2]int{240, 3000}, Batch: 120,
		Rule: "a case is a set of generated token definitions (laminar classes), compiled twice: as it is and with every reference to a token replaced by a group with its definition, or with random laws of regular expressions applied; an evaluation compares the two token streams of one of up to 60 texts (which cover the transitions of the reference automaton); non-trivial = the stream has a token longer than one rune and the two definitions differ, distinct by (grammar, text)",
		Gen: func(r *Rand, i int) *Case {
			for {
				g, d := genLex(r, LexOpts{Refs: true, Laminar: true, Supp: r.P(30), Lits: i%3 == 0, Uni: i%6 == 1})
				c := &Case{G: g, Kind: "law", Seed: uint64(r.Intn(1 << 30))}
				if i%2 == 0 {
					c.Kind = "inline"
					if !hasRef(g) {
						continue
					}
				}
				for _, in := range lexInputs(r, d, 60, 40) {
					c.Jobs = append(c.Jobs, runesJob("lex", in))
				}
				return c
			}
		},
		Valid: func(c *Case) bool {
			return lexValid(true)(c) && (c.Kind != "inline" || hasRef(c.G))
		},
		Expand: func(c *Case) []*Unit {
			return []*Unit{{G: c.G, Jobs: c.Jobs}, {G: c07Other(c, map[string]int{}), Jobs: c.Jobs}}
		},
		Judge: func(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
			for _, o := range os {
				if f := unitFail(o); f != nil {
					return f
				}
			}
			laws := map[string]int{}
			other := c07Other(c, laws)
			for k, n := range laws {
				st.CN(k, n)
			}
			st.C(c.Kind)
			diff := other.Text("p") != c.G.Text("p")
			for k, j := range c.Jobs {
				in := j.InputRunes()
				for _, o := range os {
					if f := resFail(k, string(in), o.Res[k]); f != nil {
						return f
					}
				}
				a, b := tokStr(os[0].Res[k].Toks), tokStr(os[1].Res[k].Toks)
				nt := diff && longTok(os[0].Res[k].Toks)
				st.Ev(c.G.Text("p")+rkey(in), nt)
				if a != b {
					return failf(k, "input %q:\n  %s\n with the equivalent definitions\n%s\n  %s", string(in), a, other.Text("p"), b)
				}
				if nt {
					sample(st, c, string(in), a)
				}
			}
			return nil
		},
	})
}

func longTok(ts []shared.Tok) bool {
	for _, t := range ts {
		if t.R-t.L > 1 && t.T != "Error" {
			return true
		}
	}
	return false
}
