package main

import (
	"fmt"
	"sort"
	"strings"
	"unicode"
)

/*** Generator of syntax grammars ***/

// templates: upper case words are NTs, other words literals, "." separates
// nothing; rules separated by ";".
var cfgTemplates = []string{
	`S: S + S | S * S | a`,
	`S: S S S | S S | b | `,
	`S: a S a | a`,
	`S: a S a | b S b | a | b | `,
	`S: S | a`,
	`S: A | a ; A: S | b`,
	`S: A S b | c ; A: d | `,
	`S: A B C ; A: a | ; B: b | ; C: c | `,
	`S: A A A A ; A: a | `,
	`S: if E S | if E S else S | x ; E: e`,
	`E: E + T | T ; T: T * F | F ; F: ( E ) | i`,
	`E: T E1 ; E1: + T E1 | ; T: F T1 ; T1: * F T1 | ; F: ( E ) | i`,
	`L: L c I | I ; I: x | y`,
	`L: I c L | I ; I: x | y`,
	`S: C C ; C: c C | d`,
	`S: a A d | b B d | a B e | b A e ; A: c ; B: c`,
	`S: L = R | R ; L: * R | i ; R: L`,
	`S: ( S ) | a`,
	`S: ( S ) S | `,
	`S: a S b | `,
	`S: a S | S a | a`,
	`S: A a | b ; A: A c | S d | `,
	`S: A S a | ; A: `,
	`S: A B ; A: a A | ; B: B b | a`,
	`S: a b | a B ; B: b`,
	`S: A C | a B ; A: a ; B: b c | ; C: b c | `,
	`S: a A c | A b c ; A: a | b `,
	`S: X Y Z t ; X: x | ; Y: X X | y ; Z: Y z | `,
	`S: T ; T: F | F / T ; F: E ; E: a | ( S )`,
	`S: a a a a | a A | A a ; A: a a a | a`,
	`S: A | B ; A: a A b | a b ; B: a B b b | a b b`,
	`S: D ; D: D ; | D V | ; V: v i | v i = i`,
	`P: P S ; | ; S: i = E | p E ; E: E + i | i`,
	`S: u B z | u C y | v B y | v C z ; B: w ; C: w`,
	`S: N v | P v ; N: d n | n ; P: d n of n`,
	`S: A x B y ; A: a | a A ; B: A | b B A`,
	`S: [ L ] | a ; L: S | L , S | `,
	`S: F G H F ; F: f | ; G: g F | F ; H: h | G h`,
}

func parseTemplate(t string) *Grammar {
	g := &Grammar{}
	rules := strings.Split(" "+t, " ; ")
	// a ";" that is a terminal is written in a rule as "; |" or ";" at an end:
	// templates above only use it as "D ;" / "S ;" which the split would eat,
	// so glue rule parts that have no head.
	var parts []string
	for _, r := range rules {
		if i := strings.Index(r, ": "); i < 0 {
			parts[len(parts)-1] += " ; " + r
			continue
		}
		parts = append(parts, r)
	}
	for _, r := range parts {
		i := strings.Index(r, ":")
		nt := strings.TrimSpace(r[:i])
		sr := &SynRule{NT: nt}
		for _, a := range strings.Split(r[i+1:], "|") {
			alt := []Sym{}
			for _, w := range strings.Fields(a) {
				if unicode.IsUpper([]rune(w)[0]) {
					alt = append(alt, Sym{KNT, w})
				} else {
					alt = append(alt, Sym{KLit, w})
				}
			}
			sr.Alts = append(sr.Alts, alt)
		}
		g.Syn = append(g.Syn, sr)
	}
	return g
}

var ntPool = []string{"A", "B", "C", "D", "Expr", "List", "T1", "Stmt_x", "Q", "Zz"}
var litPool = []string{"A", "Expr", "T1", "$", "Error", "num", "at", "a", "b", "c", "+", "*", "(", ")", "if", "then", "=", "==", "x1", ",", "[", "]", "<-", "ab", "-", "{", "}", "é", "|", ":", "."}

// tokPool: token definitions that do not clash with litPool; words are lexemes.
type tokDef struct {
	r     LexRule
	words []string
}

func ch(s string) *Lex { return &Lex{K: LChar, S: s} }

var tokPool = []tokDef{
	{LexRule{ID: "num", Re: []*Lex{{K: LClass, S: "number"}, {K: LStar, Alts: [][]*Lex{{{K: LClass, S: "number"}}}}}}, []string{"1", "42", "7"}},
	{LexRule{ID: "name_u", Re: []*Lex{{K: LClass, S: "upcase"}, {K: LStar, Alts: [][]*Lex{{{K: LClass, S: "upcase"}}, {ch("_")}}}}}, []string{"X", "AB", "Z_"}},
	{LexRule{ID: "at", Re: []*Lex{ch("@")}}, []string{"@"}},
	{LexRule{ID: "hash2", Re: []*Lex{ch("#"), {K: LOpt, Alts: [][]*Lex{{ch("#")}}}}}, []string{"#", "##"}},
	{LexRule{ID: "str_l", Re: []*Lex{ch("~"), {K: LStar, Alts: [][]*Lex{{{K: LAnyOf, S: "qw"}}}}, ch("~")}}, []string{"~~", "~q~", "~wq~"}},
}

var cmtDef = LexRule{ID: "cmt", Supp: true, Re: []*Lex{ch("%"), {K: LStar, Alts: [][]*Lex{{ch("x")}, {ch("y")}}}, ch("%")}}

const cmtWord = "%xy%"

// words returns lexemes of a terminal of a generated syntax grammar.
func wordsOf(name string, lit bool) []string {
	if lit {
		return []string{name}
	}
	for _, t := range tokPool {
		if t.r.ID == name {
			return t.words
		}
	}
	return []string{"@"}
}

// SynOpts tune genSyn.
type SynOpts struct {
	Long    int // length of long inputs of LL(1) grammars
	Unamb   bool
	LRBias  bool
	MaxNT   int
	Wide    int // percent more wide grammars
	NoToks  bool
	NoEmpty bool
}

// genSyn generates a syntax grammar whose NTs are all reachable and
// productive, whose alternates are distinct, and whose tokens can be lexed
// without ambiguity when they are separated by spaces.
func genSyn(r *Rand, o SynOpts) *Grammar {
	for {
		var g *Grammar
		if o.Long > 0 && r.P(50) {
			g = ll1Syn(r)
		} else if r.P(8 + o.Wide) {
			g = wideSyn(r)
		} else if r.P(40) {
			g = parseTemplate(pick(r, cfgTemplates...))
			for k := r.Intn(4) - 1; k > 0; k-- {
				mutateSyn(r, g)
			}
		} else {
			g = randSyn(r, o)
		}
		if !fixSyn(r, g) {
			continue
		}
		if o.NoEmpty {
			if c := NewCFG(g); c.nullable[0] && r.P(100) {
				_ = c
			}
		}
		renameTerms(r, g, o)
		addLex(r, g)
		if r.P(40) {
			renameNTs(r, g)
		}
		if r.P(50) {
			g.Order = interleave(r, len(g.Lex), len(g.Syn))
		}
		return g
	}
}

// wideSyn generates a grammar with long bodies, many alternates or many
// nonterminals, over few words per nonterminal.
func wideSyn(r *Rand) *Grammar {
	lit := func(i int) Sym { return Sym{KLit, litPool[7+i]} }
	name := func(i int) string { return fmt.Sprintf("N%d", i) }
	g := &Grammar{Syn: []*SynRule{{NT: "S"}}}
	add := func(nt string, alts ...[]Sym) { g.Syn = append(g.Syn, &SynRule{NT: nt, Alts: alts}) }
	switch pick(r, 0, 0, 1, 2, 2) {
	case 0: // long bodies, with optional symbols
		n, k := r.Range(6, 13), 0
		body := []Sym{}
		opt := 20 + r.Intn(70)
		for i := 0; i < n; i++ {
			t := lit(i)
			if r.P(10) {
				t = lit(r.Intn(n))
			}
			switch {
			case r.P(opt):
				add(name(k), []Sym{t}, []Sym{})
				if r.P(30) {
					x := g.Syn[len(g.Syn)-1]
					x.Alts = append([][]Sym{{lit(17 + r.Intn(6))}}, x.Alts...)
				}
				body = append(body, Sym{KNT, name(k)})
				k++
			case r.P(30):
				add(name(k), []Sym{t}, []Sym{lit(n)})
				body = append(body, Sym{KNT, name(k)})
				k++
			case r.P(20):
				add(name(k), []Sym{t, {KNT, name(k)}}, []Sym{})
				body = append(body, Sym{KNT, name(k)})
				k++
			case r.P(15) && k > 0:
				body = append(body, Sym{KNT, name(r.Intn(k))})
			default:
				body = append(body, t)
			}
		}
		if r.P(60) { // a part of the body becomes a rule
			p := r.Range(1, n-3)
			q := r.Range(p+2, n)
			add("Grp", append([]Sym{}, body[p:q]...))
			x := body[:p:p]
			if r.P(50) {
				x = append(x, Sym{KNT, "Grp"}, lit(n+4))
			}
			x = append(x, Sym{KNT, "Grp"})
			body = append(x, body[q:]...)
		}
		g.Syn[0].Alts = [][]Sym{body}
		if r.P(60) {
			a := []Sym{lit(n + 1), {KNT, "S"}}
			if r.P(60) {
				a = append(a, lit(n+2))
			}
			if r.P(40) {
				a = append(a, Sym{KNT, "S"}, lit(n+3))
			}
			g.Syn[0].Alts = append(g.Syn[0].Alts, a)
		}
		if r.P(30) && len(body) > 6 {
			g.Syn[0].Alts = append(g.Syn[0].Alts, append([]Sym{}, body[r.Range(1, 3):]...))
		}
	case 1: // many alternates
		g.Syn[0].Alts = [][]Sym{{{KNT, "N0"}}, {{KNT, "S"}, {KNT, "N0"}}}
		if r.P(50) {
			g.Syn[0].Alts = [][]Sym{{{KNT, "N0"}, lit(16)}, {{KNT, "N0"}, lit(17), {KNT, "S"}}}
		}
		alts := [][]Sym{}
		for n := r.Range(9, 14); n > 0; n-- {
			a := []Sym{lit(n)}
			for r.P(40) {
				a = append(a, pick(r, lit(r.Intn(15)), Sym{KNT, "N0"}, Sym{KNT, "N1"}))
			}
			alts = append(alts, a)
		}
		if r.P(30) {
			alts = append(alts, []Sym{})
		}
		add("N0", alts...)
		add("N1", []Sym{lit(14)}, []Sym{})
	default: // many nonterminals: levels of operators
		n := r.Range(6, 13)
		g.Syn[0].Alts = [][]Sym{{{KNT, "N0"}}}
		for i := 0; i < n; i++ {
			x, y := Sym{KNT, name(i)}, Sym{KNT, name(i + 1)}
			alts := [][]Sym{{y}}
			if r.P(70) {
				alts = append(alts, pick(r, []Sym{x, lit(i), y}, []Sym{x, lit(i), y}, []Sym{y, lit(i), x}, []Sym{lit(i), x}, []Sym{x, lit(i)}, []Sym{y, lit(i), y}))
			}
			if r.P(50) {
				alts[0], alts[len(alts)-1] = alts[len(alts)-1], alts[0]
			}
			add(name(i), alts...)
		}
		add(name(n), []Sym{lit(n)}, []Sym{lit(n + 1), {KNT, name(r.Intn(n))}, lit(n + 2)})
		if r.P(20) {
			x := g.Syn[len(g.Syn)-1]
			x.Alts = append(x.Alts, []Sym{})
		}
	}
	if r.P(30) {
		mutateSyn(r, g)
	}
	return g
}

func randSyn(r *Rand, o SynOpts) *Grammar {
	g := &Grammar{}
	max := 4
	if o.MaxNT > 0 {
		max = o.MaxNT
	}
	n := r.Range(1, max)
	nts := []string{"S"}
	for i := 1; i < n; i++ {
		nts = append(nts, ntPool[i-1])
	}
	nt := r.Range(1, 4)
	tp := 35 + r.Intn(50)
	ep := r.Intn(30)
	if o.LRBias {
		tp = 45 + r.Intn(40)
		ep = r.Intn(15)
	}
	for _, x := range nts {
		sr := &SynRule{NT: x}
		for k := r.Range(1, 4); k > 0; k-- {
			a := []Sym{}
			if !r.P(ep) {
				ln := pick(r, 1, 1, 1, 2, 2, 2, 3, 3, 4, 5)
				for i := 0; i < ln; i++ {
					if r.P(tp) {
						a = append(a, Sym{KLit, litPool[7+r.Intn(nt)]})
					} else {
						a = append(a, Sym{KNT, nts[r.Intn(n)]})
					}
				}
			}
			sr.Alts = append(sr.Alts, a)
		}
		g.Syn = append(g.Syn, sr)
	}
	return g
}

func mutateSyn(r *Rand, g *Grammar) {
	sr := g.Syn[r.Intn(len(g.Syn))]
	lits := g.Lits()
	sym := func() Sym {
		if r.P(50) && len(lits) > 0 {
			return Sym{KLit, pick(r, lits...)}
		}
		return Sym{KNT, g.Syn[r.Intn(len(g.Syn))].NT}
	}
	k := r.Intn(len(sr.Alts))
	a := sr.Alts[k]
	switch r.Intn(5) {
	case 0:
		n := []Sym{}
		for i := r.Intn(3); i > 0; i-- {
			n = append(n, sym())
		}
		sr.Alts = append(sr.Alts, n)
	case 1:
		p := r.Intn(len(a) + 1)
		sr.Alts[k] = append(append(append([]Sym{}, a[:p]...), sym()), a[p:]...)
	case 2:
		if len(a) > 0 {
			a[r.Intn(len(a))] = sym()
		}
	case 3:
		if len(a) > 0 {
			p := r.Intn(len(a))
			sr.Alts[k] = append(append([]Sym{}, a[:p]...), a[p+1:]...)
		}
	case 4:
		j := r.Intn(len(sr.Alts))
		sr.Alts[k], sr.Alts[j] = sr.Alts[j], sr.Alts[k]
	}
}

func altKey(a []Sym) string {
	ks := []string{}
	for _, s := range a {
		ks = append(ks, s.K+s.N)
	}
	return strings.Join(ks, " ")
}

// synOK: reachable, productive, distinct alternates.
func synOK(g *Grammar) bool {
	if len(g.Syn) == 0 {
		return false
	}
	nts := map[string]bool{}
	for _, s := range g.Syn {
		if nts[s.NT] || len(s.Alts) == 0 {
			return false
		}
		nts[s.NT] = true
		seen := map[string]bool{}
		for _, a := range s.Alts {
			if seen[altKey(a)] {
				return false
			}
			seen[altKey(a)] = true
		}
	}
	toks := map[string]bool{}
	for _, l := range g.Lex {
		toks[l.ID] = true
	}
	for _, s := range g.Syn {
		for _, a := range s.Alts {
			for _, x := range a {
				if x.K == KNT && !nts[x.N] || x.K == KTok && !toks[x.N] {
					return false
				}
			}
		}
	}
	c := NewCFG(g)
	for _, b := range c.reachable() {
		if !b {
			return false
		}
	}
	for _, b := range c.productive() {
		if !b {
			return false
		}
	}
	// at least one terminal
	return len(c.Terms) > 0
}

// fixSyn repairs g until synOK; false if it gives up.
func fixSyn(r *Rand, g *Grammar) bool {
	for round := 0; round < 20; round++ {
		for _, s := range g.Syn { // distinct alternates
			seen := map[string]bool{}
			as := [][]Sym{}
			for _, a := range s.Alts {
				if !seen[altKey(a)] {
					seen[altKey(a)] = true
					as = append(as, a)
				}
			}
			s.Alts = as
		}
		if synOK(g) {
			return true
		}
		c := NewCFG(g)
		if len(c.Terms) == 0 {
			g.Syn[0].Alts = append(g.Syn[0].Alts, []Sym{{KLit, "a"}})
			continue
		}
		if p := c.productive(); true {
			bad := false
			for i, ok := range p {
				if !ok {
					g.Syn[i].Alts = append(g.Syn[i].Alts, []Sym{{KLit, pick(r, c.Words...)}})
					bad = true
					break
				}
			}
			if bad {
				continue
			}
		}
		re := c.reachable()
		for i, ok := range re {
			if !ok {
				// insert a use in a reachable rule
				j := r.Intn(len(g.Syn))
				for !re[j] {
					j = (j + 1) % len(g.Syn)
				}
				k := r.Intn(len(g.Syn[j].Alts))
				a := g.Syn[j].Alts[k]
				p := r.Intn(len(a) + 1)
				g.Syn[j].Alts[k] = append(append(append([]Sym{}, a[:p]...), Sym{KNT, g.Syn[i].NT}), a[p:]...)
				break
			}
		}
	}
	return false
}

// renameTerms replaces the literals by random literals and tokens.
func renameTerms(r *Rand, g *Grammar, o SynOpts) {
	m := map[string]Sym{}
	used := map[string]bool{}
	lits := g.Lits()
	for _, l := range lits {
		if r.P(50) {
			if !used[l] {
				m[l] = Sym{KLit, l}
				used[l] = true
				continue
			}
		}
		for {
			if r.P(30) && !o.NoToks {
				t := tokPool[r.Intn(len(tokPool))]
				if !used["T"+t.r.ID] {
					used["T"+t.r.ID] = true
					m[l] = Sym{KTok, t.r.ID}
					break
				}
				continue
			}
			x := pick(r, litPool...)
			if !used[x] {
				used[x] = true
				m[l] = Sym{KLit, x}
				break
			}
		}
	}
	for _, s := range g.Syn {
		for _, a := range s.Alts {
			for i := range a {
				if a[i].K == KLit {
					a[i] = m[a[i].N]
				}
			}
		}
	}
}

// addLex adds the token definitions used and maybe a suppressed one.
func addLex(r *Rand, g *Grammar) {
	used := map[string]bool{}
	for _, s := range g.Syn {
		for _, a := range s.Alts {
			for _, x := range a {
				if x.K == KTok {
					used[x.N] = true
				}
			}
		}
	}
	for _, t := range tokPool {
		if used[t.r.ID] {
			c := t.r
			c.Re = cloneRe(t.r.Re)
			g.Lex = append(g.Lex, &c)
		}
	}
	if r.P(15) { // a token that the syntax does not use
		t := tokPool[r.Intn(len(tokPool))]
		if !used[t.r.ID] {
			c := t.r
			c.Re = cloneRe(t.r.Re)
			g.Lex = append(g.Lex, &c)
		}
	}
	if r.P(30) {
		c := cmtDef
		c.Re = cloneRe(cmtDef.Re)
		g.Lex = append(g.Lex, &c)
	}
	p := r.Perm(len(g.Lex))
	l := make([]*LexRule, len(g.Lex))
	for i := range p {
		l[i] = g.Lex[p[i]]
	}
	g.Lex = l
}

func renameNTs(r *Rand, g *Grammar) {
	names := []string{"Aa", "S0", "B9", "Start", "X_y", "M", "N", "Ee", "T", "Token", "E1", "Rule_2", "Set", "L", "Nt", "A", "Zz", "Q_", "Parser", "W", "Y"}
	p := r.Perm(len(names))
	m := map[string]string{}
	for i, s := range g.Syn {
		m[s.NT] = names[p[i]]
	}
	for _, s := range g.Syn {
		s.NT = m[s.NT]
		for _, a := range s.Alts {
			for i := range a {
				if a[i].K == KNT {
					a[i].N = m[a[i].N]
				}
			}
		}
	}
}

// interleave returns a random merge of 0..nl-1 and nl..nl+ns-1.
func interleave(r *Rand, nl, ns int) []int {
	out := []int{}
	i, j := 0, 0
	for i < nl || j < ns {
		if i < nl && (j == ns || r.Intn(nl-i+ns-j) < nl-i) {
			out = append(out, i)
			i++
		} else {
			out = append(out, nl+j)
			j++
		}
	}
	return out
}

/*** inputs ***/

// genInputs generates token sequences (TErr stands for a foreign token).
func genInputs(r *Rand, c *CFG, n, maxLen int) (ins [][]int) {
	seen := map[string]bool{}
	add := func(w []int) {
		k := fmt.Sprint(w)
		if !seen[k] && len(w) <= maxLen {
			seen[k] = true
			ins = append(ins, append([]int{}, w...))
		}
	}
	add(nil)
	// exhaustive short strings
	T := len(c.Terms)
	level := [][]int{{}}
	for total := 1; ; {
		total *= T
		if total > n/3 || len(level[0]) >= 4 {
			break
		}
		next := [][]int{}
		for _, w := range level {
			for t := 0; t < T; t++ {
				next = append(next, append(append([]int{}, w...), t))
			}
		}
		level = next
		for _, w := range level {
			add(w)
		}
		if len(ins) > n/3 {
			break
		}
	}
	h := c.heights()
	var sents [][]int
	for k := 0; k < 3*n && len(ins) < n; k++ {
		if len(sents) == 0 || r.P(55) {
			b := r.Range(1, maxLen)
			w := c.derive(r, h, b)
			if len(w) > maxLen {
				continue
			}
			sents = append(sents, w)
			add(w)
			continue
		}
		w := append([]int{}, sents[r.Intn(len(sents))]...)
		for m := r.Range(1, 2); m > 0; m-- {
			p := r.Intn(len(w) + 1)
			t := r.Intn(T)
			if r.P(8) {
				t = TErr
			}
			switch r.Intn(6) {
			case 0:
				w = append(append(append([]int{}, w[:p]...), t), w[p:]...)
			case 1:
				if p < len(w) {
					w = append(append([]int{}, w[:p]...), w[p+1:]...)
				}
			case 2:
				if p < len(w) {
					w[p] = t
				}
			case 3:
				w = w[:p]
			case 4:
				if p+1 < len(w) {
					w[p], w[p+1] = w[p+1], w[p]
				}
			case 5:
				w = append(append([]int{}, w...), w[p:]...)
			}
		}
		add(w)
	}
	return
}

// heights: minimal derivation height of each NT.
func (c *CFG) heights() []int {
	h := make([]int, len(c.NTs))
	for i := range h {
		h[i] = 1 << 20
	}
	for changed := true; changed; {
		changed = false
		for x := range c.Prods {
			for _, b := range c.Prods[x] {
				if v := altHeight(h, b) + 1; v < h[x] {
					h[x] = v
					changed = true
				}
			}
		}
	}
	return h
}

func altHeight(h []int, b []int) int {
	m := 0
	for _, s := range b {
		if isNT(s) && h[ntOf(s)] > m {
			m = h[ntOf(s)]
		}
	}
	return m
}

// derive returns a random sentence, roughly bounded by budget.
func (c *CFG) derive(r *Rand, h []int, budget int) (w []int) {
	return c.deriveFrom(r, h, 0, budget, r.Range(2, 8))
}

// deriveFrom derives from a nonterminal.
func (c *CFG) deriveFrom(r *Rand, h []int, from, budget, depth int) (w []int) {
	steps := 0
	var exp func(x, depth int)
	exp = func(x, depth int) {
		steps++
		alts := c.Prods[x]
		k := r.Intn(len(alts))
		if depth <= 0 || len(w) >= budget || steps > 60 {
			best := []int{}
			bh := 1 << 30
			for i, b := range alts {
				if v := altHeight(h, b); v < bh {
					best, bh = []int{i}, v
				} else if v == bh {
					best = append(best, i)
				}
			}
			k = best[r.Intn(len(best))]
		}
		for _, s := range alts[k] {
			if isNT(s) {
				exp(ntOf(s), depth-1)
			} else {
				w = append(w, s)
			}
		}
	}
	exp(from, depth)
	return
}

// unusedWords are lexemes of the tokens that the syntax does not use.
func unusedWords(g *Grammar, c *CFG) (ws []string) {
	used := map[string]bool{}
	for i, t := range c.Terms {
		used[t] = used[t] || !c.IsLit[i]
	}
	for _, l := range g.Lex {
		if !l.Supp && !used[l.ID] {
			ws = append(ws, wordsOf(l.ID, false)...)
		}
	}
	return
}

// render writes a token sequence as text.
func render(r *Rand, g *Grammar, c *CFG, w []int) string {
	var sb strings.Builder
	cmt := false
	for _, l := range g.Lex {
		cmt = cmt || l.ID == "cmt"
	}
	plain := r.P(60)
	sep := func(must bool) {
		if plain {
			if must {
				sb.WriteString(" ")
			}
			return
		}
		if must || r.P(30) {
			sb.WriteString(pick(r, " ", " ", "\n", "  ", "\t", "\r\n", " \n "))
			if cmt && r.P(25) {
				sb.WriteString(cmtWord + pick(r, " ", "\n"))
			}
		}
	}
	for i, t := range w {
		sep(i > 0)
		if t == TErr {
			if o := unusedWords(g, c); len(o) > 0 && r.P(60) {
				sb.WriteString(pick(r, o...))
				continue
			}
			sb.WriteString(pick(r, "$$", "zzq", "?", "^"))
			continue
		}
		ws := wordsOf(c.Words[t], c.IsLit[t])
		sb.WriteString(ws[r.Intn(len(ws))])
	}
	if len(w) > 0 {
		sep(false)
	}
	return sb.String()
}

/*** reading texts back ***/

// SynLex tokenises texts of a generated syntax grammar with the reference lexer.
type SynLex struct {
	c   *CFG
	nfa *NFA
	tm  []int // terminal of the lexer -> terminal of the CFG, TErr if none
}

func NewSynLex(g *Grammar, c *CFG) *SynLex {
	s := &SynLex{c: c, nfa: NewNFA(g)}
	c.Extra = nil
	for _, t := range s.nfa.Terms {
		c.Extra = append(c.Extra, t.ID)
		k := TErr
		for i, n := range c.Terms {
			if n == t.ID && c.IsLit[i] == t.Lit {
				k = i
			}
		}
		s.tm = append(s.tm, k)
	}
	return s
}

// Lex returns the token sequence of a text and the extents of the tokens.
// Terminals that the syntax does not use are numbered TErr-1-i.
func (s *SynLex) Lex(text string) (w []int, ext [][2]int) {
	for _, t := range s.nfa.Lex([]rune(text)) {
		if t.Cands == nil {
			w = append(w, TErr)
		} else {
			p := s.nfa.prefer(t.Cands)
			if s.nfa.Terms[p[0]].Supp {
				continue
			}
			k := s.tm[p[0]]
			if k == TErr {
				k = TErr - 1 - p[0]
			}
			w = append(w, k)
		}
		ext = append(ext, [2]int{t.L, t.R})
	}
	return
}

func sortedCopy(s []string) []string {
	c := append([]string{}, s...)
	sort.Strings(c)
	return c
}

func diffSets(got, want []string) string {
	g, w := map[string]bool{}, map[string]bool{}
	for _, x := range got {
		g[x] = true
	}
	for _, x := range want {
		w[x] = true
	}
	var extra, miss []string
	for _, x := range sortedKeys(g) {
		if !w[x] {
			extra = append(extra, x)
		}
	}
	for _, x := range sortedKeys(w) {
		if !g[x] {
			miss = append(miss, x)
		}
	}
	if len(got) != len(g) {
		return fmt.Sprintf("unexpected %q, missing %q, and duplicates in %q", extra, miss, got)
	}
	if extra == nil && miss == nil {
		return ""
	}
	return fmt.Sprintf("unexpected %q, missing %q", extra, miss)
}
