package main

import (
	"sort"
	"unicode"
)

/*** Reference model of token definitions: Thompson NFA simulation ***/

// RuneSet is a predicate over runes.
type RuneSet func(r rune) bool

func uniTable(u USpec) *unicode.RangeTable {
	if u.Prop {
		return unicode.Properties[u.Name]
	}
	if n, ok := uniLong[u.Name]; ok {
		return unicode.Categories[n]
	}
	return unicode.Categories[u.Name]
}

var uniLong = map[string]string{"Digit": "Nd", "Letter": "L", "Lower": "Ll", "Mark": "M", "Number": "N", "Other": "C",
	"Punct": "P", "Space": "Z", "Symbol": "S", "Title": "Lt", "Upper": "Lu"}

// leafSet is the set of runes a leaf symbol matches.
func leafSet(l *Lex) RuneSet {
	switch l.K {
	case LChar:
		c := []rune(l.S)[0]
		return func(r rune) bool { return r == c }
	case LAny:
		return func(r rune) bool { return true }
	case LAnyOf, LNot:
		m := map[rune]bool{}
		for _, c := range l.S {
			m[c] = true
		}
		want := l.K == LAnyOf
		return func(r rune) bool { return m[r] == want }
	case LClass:
		switch l.S {
		case "letter":
			return unicode.IsLetter
		case "upcase":
			return unicode.IsUpper
		case "lowcase":
			return unicode.IsLower
		case "number":
			return unicode.IsNumber
		}
	case LUSet:
		var in, ex []*unicode.RangeTable
		for _, u := range l.U {
			if u.Excl {
				ex = append(ex, uniTable(u))
			} else {
				in = append(in, uniTable(u))
			}
		}
		return func(r rune) bool { return unicode.In(r, in...) && !unicode.In(r, ex...) }
	}
	panic("leafSet " + l.K)
}

func isLeaf(l *Lex) bool {
	switch l.K {
	case LChar, LAny, LAnyOf, LNot, LClass, LUSet:
		return true
	}
	return false
}

type nfaState struct {
	set  RuneSet // nil: no rune transition
	leaf *Lex
	next int
	eps  []int
	acc  int // terminal index+1
}

// NFA recognises all terminals of a grammar.
type NFA struct {
	st    []nfaState
	start int
	Terms []LTerm
	clos  map[int][]int
}

// LTerm is a terminal known to the lexer.
type LTerm struct {
	ID   string
	Lit  bool
	Supp bool
	Re   []*Lex
}

func (n *NFA) add() int {
	n.st = append(n.st, nfaState{})
	return len(n.st) - 1
}

func (n *NFA) eps(a, b int) { n.st[a].eps = append(n.st[a].eps, b) }

// LTerms lists the terminals of g in definition order, literals last.
func (g *Grammar) LTerms() (ts []LTerm) {
	for _, r := range g.Lex {
		ts = append(ts, LTerm{ID: r.ID, Supp: r.Supp, Re: r.Re})
	}
	for _, s := range g.Lits() {
		re := []*Lex{}
		for _, c := range s {
			re = append(re, &Lex{K: LChar, S: string(c)})
		}
		ts = append(ts, LTerm{ID: g.LitID(s), Lit: true, Re: re})
	}
	return
}

// NewNFA builds the reference automaton of g.
func NewNFA(g *Grammar) *NFA {
	n := &NFA{clos: map[int][]int{}}
	n.Terms = g.LTerms()
	defs := map[string][]*Lex{}
	n.start = n.add()
	for i, t := range n.Terms {
		s := n.add()
		n.eps(n.start, s)
		e := n.seq(t.Re, s, defs)
		n.st[e].acc = i + 1
		if !t.Lit {
			defs[t.ID] = t.Re
		}
	}
	return n
}

func (n *NFA) seq(re []*Lex, s int, defs map[string][]*Lex) int {
	for _, l := range re {
		s = n.sym(l, s, defs)
	}
	return s
}

func (n *NFA) sym(l *Lex, s int, defs map[string][]*Lex) int {
	if isLeaf(l) {
		e := n.add()
		if n.st[s].set != nil {
			s2 := n.add()
			n.eps(s, s2)
			s = s2
		}
		n.st[s].set, n.st[s].leaf, n.st[s].next = leafSet(l), l, e
		return e
	}
	if l.K == LRef {
		return n.seq(defs[l.S], s, defs)
	}
	in, out := n.add(), n.add()
	n.eps(s, in)
	for _, a := range l.Alts {
		b := n.add()
		n.eps(in, b)
		e := n.seq(a, b, defs)
		n.eps(e, out)
	}
	if l.K == LOpt || l.K == LStar {
		n.eps(in, out)
	}
	if l.K == LStar || l.K == LPlus {
		n.eps(out, in)
	}
	after := n.add()
	n.eps(out, after)
	return after
}

func (n *NFA) closure(states []int) []int {
	seen := map[int]bool{}
	todo := append([]int{}, states...)
	out := []int{}
	for len(todo) > 0 {
		s := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if seen[s] {
			continue
		}
		seen[s] = true
		out = append(out, s)
		todo = append(todo, n.st[s].eps...)
	}
	sort.Ints(out)
	return out
}

func (n *NFA) step(states []int, r rune) []int {
	var next []int
	for _, s := range states {
		if n.st[s].set != nil && n.st[s].set(r) {
			next = append(next, n.st[s].next)
		}
	}
	if next == nil {
		return nil
	}
	return n.closure(next)
}

// accepts lists the terminals accepted in a state set.
func (n *NFA) accepts(states []int) (ts []int) {
	seen := map[int]bool{}
	for _, s := range states {
		if a := n.st[s].acc; a > 0 && !seen[a-1] {
			seen[a-1] = true
			ts = append(ts, a-1)
		}
	}
	sort.Ints(ts)
	return
}

// RTok is a token of the reference lexer.
type RTok struct {
	Cands []int // candidate terminals (indices), nil: Error
	L, R  int
}

// scanAt scans one token at i (not whitespace): the longest run of runes that
// is a prefix of some lexeme; if that run is no lexeme the token is an Error.
func (n *NFA) scanAt(in []rune, i int) RTok {
	cur := n.closure([]int{n.start})
	j := i
	for j < len(in) {
		nx := n.step(cur, in[j])
		if nx == nil {
			break
		}
		cur = nx
		j++
	}
	if j == i {
		return RTok{nil, i, i + 1}
	}
	acc := n.accepts(cur)
	if len(acc) > 0 {
		return RTok{acc, i, j}
	}
	if j < len(in) {
		j++
	}
	return RTok{nil, i, j}
}

// Lex is the reference tokenisation (all tokens, including suppressed ones,
// without EOF).
func (n *NFA) Lex(in []rune) (ts []RTok) {
	i := 0
	for i < len(in) {
		if unicode.IsSpace(in[i]) {
			i++
			continue
		}
		t := n.scanAt(in, i)
		ts = append(ts, t)
		i = t.R
	}
	return
}

// prefer reduces candidates: string literals win over token definitions.
func (n *NFA) prefer(c []int) []int {
	var lits []int
	for _, t := range c {
		if n.Terms[t].Lit {
			lits = append(lits, t)
		}
	}
	if lits != nil {
		return lits
	}
	return c
}

// MatchTerm tells whether terminal t matches exactly s.
func (n *NFA) MatchTerm(t int, s []rune) bool {
	cur := n.closure([]int{n.start})
	for _, r := range s {
		cur = n.step(cur, r)
		if cur == nil {
			return false
		}
	}
	for _, a := range n.accepts(cur) {
		if a == t {
			return true
		}
	}
	return false
}

/*** relations between leaf sets ***/

const (
	relDisjoint = iota
	relEqual
	relSub
	relSup
	relOverlap
)

// leafBounds lists the runes at which membership in l can change.
func leafBounds(l *Lex) (bs []rune) {
	tab := func(t *unicode.RangeTable) {
		add := func(lo, hi, stride uint32) {
			if stride == 1 {
				bs = append(bs, rune(lo), rune(hi)+1)
				return
			}
			for r := lo; r <= hi; r += stride {
				bs = append(bs, rune(r), rune(r)+1)
			}
		}
		for _, x := range t.R16 {
			add(uint32(x.Lo), uint32(x.Hi), uint32(x.Stride))
		}
		for _, x := range t.R32 {
			add(x.Lo, x.Hi, x.Stride)
		}
	}
	bs = append(bs, 0)
	switch l.K {
	case LChar, LAnyOf, LNot:
		for _, c := range l.S {
			bs = append(bs, c, c+1)
		}
	case LClass:
		switch l.S {
		case "letter":
			tab(unicode.L)
		case "upcase":
			tab(unicode.Lu)
		case "lowcase":
			tab(unicode.Ll)
		case "number":
			tab(unicode.N)
		}
	case LUSet:
		for _, u := range l.U {
			tab(uniTable(u))
		}
	}
	return
}

func relationAt(pts []rune, x, y RuneSet) int {
	inter, xOnly, yOnly := false, false, false
	for _, r := range pts {
		a, b := x(r), y(r)
		inter = inter || a && b
		xOnly = xOnly || a && !b
		yOnly = yOnly || b && !a
	}
	switch {
	case !inter:
		return relDisjoint
	case !xOnly && !yOnly:
		return relEqual
	case !xOnly:
		return relSub
	case !yOnly:
		return relSup
	}
	return relOverlap
}

// relation of the rune sets of two leaves.
func relation(a, b *Lex) int {
	return relationAt(append(leafBounds(a), leafBounds(b)...), leafSet(a), leafSet(b))
}

// leaves lists the leaves of all terminals.
func (g *Grammar) leaves() (ls []*Lex) {
	var walk func(re []*Lex)
	walk = func(re []*Lex) {
		for _, l := range re {
			if isLeaf(l) {
				ls = append(ls, l)
			}
			for _, a := range l.Alts {
				walk(a)
			}
		}
	}
	for _, t := range g.LTerms() {
		walk(t.Re)
	}
	return
}

// nullableRe tells whether a regular expression matches the empty string.
func nullableRe(re []*Lex, defs map[string][]*Lex) bool {
	for _, l := range re {
		if !nullableSym(l, defs) {
			return false
		}
	}
	return true
}

func nullableSym(l *Lex, defs map[string][]*Lex) bool {
	switch l.K {
	case LOpt, LStar:
		return true
	case LGroup, LPlus:
		for _, a := range l.Alts {
			if nullableRe(a, defs) {
				return true
			}
		}
		return false
	case LRef:
		return nullableRe(defs[l.S], defs)
	}
	return false
}
