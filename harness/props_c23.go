package main

import (
	"encoding/json"
	"fmt"
	"regexp"
	"sort"
	"strings"

	"vh/shared"
)

/*** Transformations of a grammar that keep its meaning ***/

// reform is a transformed grammar and the renaming from the original.
type reform struct {
	g    *Grammar
	text string
	md   bool
	nt   map[string]string
	term map[string]string      // token IDs
	alt  map[string]map[int]int // rule of the original -> alternate -> new alternate
	what []string               // what was changed
	lr   map[string]string      // action routine -> "NT alternate" of the original
	lr2  map[string]string      // the same for the new grammar, in terms of the original
}

var c23NTs = append([]string{"S", "A", "B", "C", "D", "Q", "Expr", "Z9", "Aaa", "AAA", "Zz_9", "ExprX", "S1", "S10", "S_", "M1", "K"}, wildNTs...)
var c23Toks = append([]string{"num", "at", "cmt", "t1", "t10", "zzz", "aaa", "id_", "xx", "y1"}, wildToks...)

// newReform derives the transformation from a seed.
func newReform(g *Grammar, seed uint64) *reform {
	r := NewRand(int64(seed), "reform")
	n := g.Clone()
	t := &reform{g: n, nt: map[string]string{}, term: map[string]string{}, alt: map[string]map[int]int{}}
	on := func(p int, what string) bool {
		if r.P(p) {
			t.what = append(t.what, what)
			return true
		}
		return false
	}
	same := func(s string) string { return s }
	ntf, tokf := same, same
	if on(60, "rename rules") {
		ntf = distinct(r, c23NTs, 10)
	}
	if on(60, "rename tokens") {
		tokf = distinct(r, c23Toks, 10)
	}
	rules := []string{}
	for _, s := range g.Syn {
		t.nt[s.NT] = ntf(s.NT)
		rules = append(rules, s.NT)
	}
	toks := map[string]string{}
	for _, l := range g.Lex {
		toks[l.ID] = tokf(l.ID)
	}
	n.rename(func(s string) string { return ntf(s) }, func(s string) string { return tokf(s) }, same)
	// alternates
	permAlt := on(50, "reorder alternates")
	for i, s := range n.Syn {
		m := map[int]int{}
		p := make([]int, len(s.Alts))
		for k := range p {
			p[k] = k
		}
		if permAlt {
			p = r.Perm(len(s.Alts))
		}
		alts := make([][]Sym, len(s.Alts))
		for k, a := range s.Alts {
			m[k] = p[k]
			alts[p[k]] = a
		}
		s.Alts = alts
		t.alt[rules[i]] = m
	}
	if on(50, "reorder rules") {
		// the first syntax rule in the file is the start symbol
		if len(n.Syn) > 1 {
			rest := append([]*SynRule{}, n.Syn[1:]...)
			for i, k := range r.Perm(len(rest)) {
				n.Syn[i+1] = rest[k]
			}
		}
		// tokens: before they are used
		done, out := map[string]bool{}, []*LexRule{}
		for len(out) < len(n.Lex) {
			ready := []*LexRule{}
			for _, l := range n.Lex {
				ok := !done[l.ID]
				eachLeaf(l.Re, func(x *Lex) {
					if x.K == LRef && !done[x.S] {
						ok = false
					}
				})
				if ok {
					ready = append(ready, l)
				}
			}
			if len(ready) == 0 {
				break
			}
			l := pick(r, ready...)
			done[l.ID] = true
			out = append(out, l)
		}
		n.Lex = out
		n.Order = interleave(r, len(n.Lex), len(n.Syn))
	}
	for a, b := range toks {
		t.term[a] = b
	}
	for _, l := range g.Lits() {
		t.term[g.LitID(l)] = n.LitID(l)
	}
	t.term["$"], t.term["Error"] = "$", "Error"
	if on(60, "layout") {
		t.text = layout(r, n.fileToks(r), false)
		if r.P(40) && !strings.Contains(t.text, "`") {
			t.text, t.md = mdWrap(r, []string{t.text}), true
		}
	}
	return t
}

// actions maps the names of the action routines to "rule alternate"; nil if
// the names are not unique.
func actions(g *Grammar) map[string]string {
	m := map[string]string{"G00": "start"}
	for _, s := range g.Syn {
		for k := range s.Alts {
			n := fmt.Sprintf("%s%d", s.NT, k)
			if m[n] != "" || strings.IndexFunc(n, func(r rune) bool { return r > 126 }) >= 0 {
				return nil
			}
			m[n] = fmt.Sprintf("%s %d", s.NT, k)
		}
	}
	return m
}

// canonJ renders a tree with the given names.
func canonJ(x interface{}, act, term func(string) string) string {
	a, ok := x.([]interface{})
	if !ok || len(a) < 2 {
		return fmt.Sprint(x)
	}
	n, _ := a[1].(string)
	if a[0] == "T" {
		return fmt.Sprintf("%q@%v", term(n), a[2])
	}
	s := "{" + act(n)
	for _, k := range a[2:] {
		s += " " + canonJ(k, act, term)
	}
	return s + "}"
}

var reKey = regexp.MustCompile(`(?s)^(.*)/(\d+)(\[\d+,\d+,\d+\])$`)
var reLRTok = regexp.MustCompile(`(?s) tok (.*) \(\d+,\d+\) .*expected one of: (.*)$`)

func c23Gen(r *Rand, i int) *Case {
	var c *Case
	switch i % 4 {
	case 0:
		g, d := genLex(r, LexOpts{Refs: true, Supp: true, Laminar: true, Lits: r.P(60), Uni: r.P(30)})
		c = &Case{Kind: "lexer", G: g}
		for _, in := range lexInputs(r, d, 25, 40) {
			c.Jobs = append(c.Jobs, runesJob("lex", in))
		}
	case 1, 2:
		c = synCase(r, SynOpts{Wide: 20}, 14, 9, func(cf *CFG, t string) *shared.Job {
			return &shared.Job{Op: "forest", Input: t, Mode: "a", N: len(cf.NTs)}
		})
		c.Kind, c.MD = "GLL", false
		for _, j := range append([]*shared.Job{}, c.Jobs...) {
			c.Jobs = append(c.Jobs, &shared.Job{Op: "err", Input: j.Input})
		}
	default:
		g := lrSyn(r, SynOpts{LRBias: true, MaxNT: 5})
		c = &Case{Kind: "LR", G: g, Flags: []string{pick(r, "-knuth", "-pager")}}
		cf := NewCFG(g)
		seen := map[string]bool{}
		for _, w := range genInputs(r, cf, 30, 12) {
			if t := render(r, g, cf, w); !seen[t] {
				seen[t] = true
				c.Jobs = append(c.Jobs, &shared.Job{Op: "lr", Input: t})
			}
		}
	}
	c.Seed = r.next()
	return c
}

func judgeC23(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
	t := newReform(c.G, c.Seed)
	head := func(f string, a ...interface{}) string {
		return fmt.Sprintf(f, a...) + "\nchanged: " + strings.Join(t.what, ", ") + "\n--- the other grammar\n" + t.unit(c).source(1)
	}
	for _, o := range os {
		if o.Gogll.Panicked() {
			return failf(-1, "%s", head("gogll crashed or hung: %s", clip(o.Gogll.Out, 1000)))
		}
	}
	if a, b := os[0].Gogll.Code, os[1].Gogll.Code; a != b {
		return failf(-1, "%s", head("gogll exits %d and %d:\n%s\n%s", a, b, clip(os[0].Gogll.Out, 600), clip(os[1].Gogll.Out, 600)))
	}
	if os[0].Gogll.Code != 0 {
		if c.Kind != "LR" {
			return unitFail(os[0])
		}
		st.C("not LR(1)")
		st.Ev(c.G.Text("p"), false)
		return nil
	}
	for _, o := range os {
		if f := unitFail(o); f != nil {
			return f
		}
	}
	n := NewNFA(c.G)
	act1, act2 := actions(c.G), actions(t.g)
	back := map[string]string{} // rule of the new grammar -> of the original
	for a, b := range t.nt {
		back[b] = a
	}
	actName2 := func(s string) string {
		if s == "G00" {
			return "start"
		}
		x := act2[s]
		i := strings.LastIndex(x, " ")
		if i < 0 {
			return "?" + s
		}
		var k int
		fmt.Sscan(x[i+1:], &k)
		nt := back[x[:i]]
		for a, b := range t.alt[nt] {
			if b == k {
				return fmt.Sprintf("%s %d", nt, a)
			}
		}
		return "?" + s
	}
	termBack := map[string]string{}
	for a, b := range t.term {
		termBack[b] = a
	}
	tb := func(s string) string {
		if x, ok := termBack[s]; ok {
			return x
		}
		return "?" + s
	}
	id := func(s string) string { return s }
	for k, j := range c.Jobs {
		in := j.InputRunes()
		tie := false
		for _, tk := range n.Lex(in) {
			lit, def := 0, 0
			for _, x := range tk.Cands {
				if n.Terms[x].Lit {
					lit++
				} else {
					def++
				}
			}
			tie = tie || lit == 0 && def > 1
		}
		if tie {
			st.C("input with a tie of definitions: skipped")
			continue
		}
		r1, r2 := os[0].Res[k], os[1].Res[k]
		for _, r := range []*shared.Res{r1, r2} {
			if f := resFail(k, string(in), r); f != nil {
				return f
			}
		}
		bad := func(f string, a ...interface{}) *Fail {
			return failf(k, "%s", head("input %q: %s", string(in), fmt.Sprintf(f, a...)))
		}
		tk2 := append([]shared.Tok{}, r2.Toks...)
		for i := range tk2 {
			tk2[i].T = tb(tk2[i].T)
		}
		if a, b := tokStr(r1.Toks), tokStr(tk2); a != b {
			return bad("tokens %s\n     and %s", a, b)
		}
		nt := len(r1.Toks) > 2
		switch {
		case r1.GLL != nil && r2.GLL != nil:
			a, b := r1.GLL, r2.GLL
			if a.OK != b.OK || a.Amb != b.Amb || len(a.Roots) != len(b.Roots) {
				return bad("accepted %v and %v, ambiguous %v and %v, %d and %d roots", a.OK, b.OK, a.Amb, b.Amb, len(a.Roots), len(b.Roots))
			}
			ks := []string{}
			for _, x := range b.All {
				m := reKey.FindStringSubmatch(x)
				if m == nil {
					return bad("key %q", x)
				}
				var alt int
				fmt.Sscan(m[2], &alt)
				o := back[m[1]]
				for p, q := range t.alt[o] {
					if q == alt {
						alt = p
						break
					}
				}
				ks = append(ks, fmt.Sprintf("%s/%d%s", o, alt, m[3]))
			}
			if d := diffSets(a.All, ks); d != "" {
				return bad("forest elements of the grammar and of the other one (renamed): %s", d)
			}
			set := func(es []shared.PErr, f func(string) string) (out []string) {
				for _, e := range es {
					x := []string{}
					for _, s := range e.Exp {
						x = append(x, f(s))
					}
					sort.Strings(x)
					out = append(out, fmt.Sprintf("%d %d:%d %s %q", e.TokI, e.Ln, e.Col, f(e.Tok.T), x))
				}
				return dedupe(out)
			}
			if d := diffSets(set(a.Errs, id), set(b.Errs, tb)); d != "" {
				return bad("errors of the grammar and of the other one (renamed): %s", d)
			}
			st.C(fmt.Sprintf("GLL accepted %v", a.OK))
		case r1.LR != nil && r2.LR != nil:
			a, b := r1.LR, r2.LR
			if a.OK != b.OK {
				return bad("accepted %v and %v: %q, %q", a.OK, b.OK, a.Err, b.Err)
			}
			st.C(fmt.Sprintf("LR accepted %v", a.OK))
			if a.OK {
				if act1 != nil && act2 != nil {
					var x, y interface{}
					json.Unmarshal([]byte(a.J), &x)
					json.Unmarshal([]byte(b.J), &y)
					p := canonJ(x, func(s string) string { return map[bool]string{true: "start", false: act1[s]}[s == "G00"] }, id)
					if q := canonJ(y, actName2, tb); p != q || p == "" {
						return bad("trees %s\n and %s", p, q)
					}
				}
				break
			}
			m1, m2 := reLRErr.FindString(a.Err), reLRErr.FindString(b.Err)
			if m1 != m2 {
				return bad("errors at %s and at %s", m1, m2)
			}
			e1, e2 := reLRTok.FindStringSubmatch(a.Err), reLRTok.FindStringSubmatch(b.Err)
			if e1 == nil || e2 == nil {
				return bad("errors %q and %q", a.Err, b.Err)
			}
			x, y := strings.Fields(e1[2]), strings.Fields(e2[2])
			for i := range y {
				y[i] = tb(y[i])
			}
			if d := diffSets(x, y); d != "" || e1[1] != tb(e2[1]) {
				return bad("token %s and %s; expected tokens: %s", e1[1], e2[1], d)
			}
		default:
			st.C("lexer")
		}
		st.Ev(c.G.Text("p")+fmt.Sprint(c.Seed)+j.Op+rkey(in), nt && len(t.what) > 0)
		if nt && len(st.Samples) < 1 {
			st.Samples = append(st.Samples, c.G.Text("p")+"changed: "+strings.Join(t.what, ", ")+"\n"+t.unit(c).source(1))
		}
	}
	for _, w := range t.what {
		st.C("changed: " + w)
	}
	return nil
}

func (t *reform) unit(c *Case) *Unit {
	return &Unit{G: t.g, Text: t.text, MD: t.md, Flags: c.Flags, Jobs: c.Jobs}
}

func init() {
	register(&Prop{
		ID: "C23", N: [2]int{300, 5000}, Batch: 100,
		Rule:   "a case is a generated grammar (lexer, GLL, Knuth or Pager) with up to 30 inputs, and a second grammar made from it by renaming rules and tokens, reordering rules and alternates, and changing the layout; an evaluation compares tokens, acceptance, forest or tree, and errors of one input; non-trivial = something changed and the input has at least 2 tokens",
		Assume: []string{"Inputs with a lexeme that several token definitions and no literal match are skipped: gogll chooses by name.", "Trees of LR(1) parsers are compared when the names of the action routines identify their productions."},
		Gen:    c23Gen,
		Valid: func(c *Case) bool {
			if len(c.G.Syn) > 0 {
				return synValid(c)
			}
			return lexValid(true)(c)
		},
		Expand: func(c *Case) []*Unit {
			return []*Unit{{G: c.G, Flags: c.Flags, Jobs: c.Jobs}, newReform(c.G, c.Seed).unit(c)}
		},
		Judge: judgeC23,
	})
}
