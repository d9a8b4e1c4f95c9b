package main

import (
	"fmt"
	"sort"
	"strings"
)

/*** Reference model of context-free grammars ***/

// Terminal numbers of a CFG: 0..len(Terms)-1; TEOF and TErr are extra.
const (
	TEOF = -1000000
	TErr = -1000001
)

// CFG is the syntax part of a grammar, numbered.
// Symbols: >= 0 terminal, < 0 nonterminal -(n+1).
type CFG struct {
	NTs   []string
	Terms []string // ID of the literal, or the tokid
	Words []string // content of the literal, or the tokid
	IsLit []bool
	Extra []string // names of the lexer's terminals, see SynLex
	Prods [][][]int

	nullable []bool
	first    []map[int]bool
	follow   []map[int]bool
}

func ntSym(n int) int { return -(n + 1) }
func isNT(s int) bool { return s < 0 && s > TEOF }
func ntOf(s int) int  { return -s - 1 }

// NewCFG numbers the syntax rules of g.
func NewCFG(g *Grammar) *CFG {
	c := &CFG{}
	nt, tm := map[string]int{}, map[string]int{}
	for i, r := range g.Syn {
		nt[r.NT] = i
		c.NTs = append(c.NTs, r.NT)
	}
	for _, r := range g.Syn {
		alts := [][]int{}
		for _, a := range r.Alts {
			body := []int{}
			for _, s := range a {
				if s.K == KNT {
					n, ok := nt[s.N]
					if !ok {
						panic("undefined NT " + s.N)
					}
					body = append(body, ntSym(n))
					continue
				}
				k := s.K + s.N
				if _, ok := tm[k]; !ok {
					tm[k] = len(c.Terms)
					id := s.N
					if s.K == KLit {
						id = g.LitID(s.N)
					}
					c.Terms = append(c.Terms, id)
					c.Words = append(c.Words, s.N)
					c.IsLit = append(c.IsLit, s.K == KLit)
				}
				body = append(body, tm[k])
			}
			alts = append(alts, body)
		}
		c.Prods = append(c.Prods, alts)
	}
	c.firstFollow()
	return c
}

// Name of a symbol.
func (c *CFG) Name(s int) string {
	switch {
	case s == TEOF:
		return "$"
	case s == TErr:
		return "Error"
	case isNT(s):
		return c.NTs[ntOf(s)]
	case s < TErr:
		return c.Extra[TErr-1-s]
	}
	return c.Terms[s]
}

func (c *CFG) firstFollow() {
	n := len(c.NTs)
	c.nullable = make([]bool, n)
	c.first = make([]map[int]bool, n)
	c.follow = make([]map[int]bool, n)
	for i := range c.first {
		c.first[i], c.follow[i] = map[int]bool{}, map[int]bool{}
	}
	c.follow[0][TEOF] = true
	for changed := true; changed; {
		changed = false
		add := func(m map[int]bool, t int) {
			if !m[t] {
				m[t] = true
				changed = true
			}
		}
		for x, alts := range c.Prods {
			for _, b := range alts {
				f, nl := c.FirstOf(b)
				for t := range f {
					add(c.first[x], t)
				}
				if nl && !c.nullable[x] {
					c.nullable[x] = true
					changed = true
				}
				for i, s := range b {
					if !isNT(s) {
						continue
					}
					f, nl := c.FirstOf(b[i+1:])
					for t := range f {
						add(c.follow[ntOf(s)], t)
					}
					if nl {
						for t := range c.follow[x] {
							add(c.follow[ntOf(s)], t)
						}
					}
				}
			}
		}
	}
}

// FirstOf returns FIRST of a string and whether it is nullable.
func (c *CFG) FirstOf(b []int) (map[int]bool, bool) {
	m := map[int]bool{}
	for _, s := range b {
		if !isNT(s) {
			m[s] = true
			return m, false
		}
		for t := range c.first[ntOf(s)] {
			m[t] = true
		}
		if !c.nullable[ntOf(s)] {
			return m, false
		}
	}
	return m, true
}

// Reachable and productive nonterminals.
func (c *CFG) reachable() []bool {
	r := make([]bool, len(c.NTs))
	todo := []int{0}
	r[0] = true
	for len(todo) > 0 {
		x := todo[0]
		todo = todo[1:]
		for _, b := range c.Prods[x] {
			for _, s := range b {
				if isNT(s) && !r[ntOf(s)] {
					r[ntOf(s)] = true
					todo = append(todo, ntOf(s))
				}
			}
		}
	}
	return r
}

func (c *CFG) productive() []bool {
	p := make([]bool, len(c.NTs))
	for changed := true; changed; {
		changed = false
		for x, alts := range c.Prods {
			if p[x] {
				continue
			}
		alt:
			for _, b := range alts {
				for _, s := range b {
					if isNT(s) && !p[ntOf(s)] {
						continue alt
					}
				}
				p[x] = true
				changed = true
				break
			}
		}
	}
	return p
}

// cyclic tells whether some nonterminal derives itself.
func (c *CFG) cyclic() bool {
	n := len(c.NTs)
	unit := make([][]bool, n)
	for i := range unit {
		unit[i] = make([]bool, n)
	}
	for x, alts := range c.Prods {
		for _, b := range alts {
			for i, s := range b {
				if !isNT(s) {
					continue
				}
				_, l := c.FirstOf(b[:i])
				_, r := c.FirstOf(b[i+1:])
				if l && r {
					unit[x][ntOf(s)] = true
				}
			}
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if unit[i][k] && unit[k][j] {
					unit[i][j] = true
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if unit[i][i] {
			return true
		}
	}
	return false
}

/*** derivable spans ***/

// Spans is the set of derivable (nt, l, r) over an input.
type Spans struct {
	c *CFG
	w []int
	d [][]uint64 // d[nt][l]: bitset of r
}

// NewSpans computes the least fixpoint. Inputs have at most 60 tokens.
func (c *CFG) NewSpans(w []int) *Spans {
	if len(w) > 60 {
		panic("input too long for the reference")
	}
	s := &Spans{c: c, w: w}
	n := len(w)
	for range c.NTs {
		s.d = append(s.d, make([]uint64, n+1))
	}
	for changed := true; changed; {
		changed = false
		for x, alts := range c.Prods {
			for _, b := range alts {
				for l := n; l >= 0; l-- {
					e := s.ends(b, l)
					if e&^s.d[x][l] != 0 {
						s.d[x][l] |= e
						changed = true
					}
				}
			}
		}
	}
	return s
}

// symEnds: bitset of r such that sym derives w[l:r].
func (s *Spans) symEnds(sym, l int) uint64 {
	if isNT(sym) {
		return s.d[ntOf(sym)][l]
	}
	if l < len(s.w) && s.w[l] == sym {
		return 1 << uint(l+1)
	}
	return 0
}

// ends: bitset of r such that b derives w[l:r].
func (s *Spans) ends(b []int, l int) uint64 {
	cur := uint64(1) << uint(l)
	for _, sym := range b {
		var nx uint64
		for k := l; k <= len(s.w); k++ {
			if cur&(1<<uint(k)) != 0 {
				nx |= s.symEnds(sym, k)
			}
		}
		cur = nx
		if cur == 0 {
			break
		}
	}
	return cur
}

func (s *Spans) has(sym, l, r int) bool { return s.symEnds(sym, l)&(1<<uint(r)) != 0 }

// Accepts tells whether the start symbol derives the whole input.
func (s *Spans) Accepts() bool { return s.has(ntSym(0), 0, len(s.w)) }

// Entry is one BSR of the reference.
type Entry struct{ NT, Alt, L, P, R int }

func (s *Spans) key(e Entry) string {
	return fmt.Sprintf("%s/%d[%d,%d,%d]", s.c.NTs[e.NT], e.Alt, e.L, e.P, e.R)
}

// entries lists the BSRs of (nt,l,r).
func (s *Spans) entries(nt, l, r int) (es []Entry) {
	for a, b := range s.c.Prods[nt] {
		for _, p := range s.pivots(b, l, r) {
			es = append(es, Entry{nt, a, l, p, r})
		}
	}
	return
}

// pivots of body b over [l,r]: where the last symbol can begin.
func (s *Spans) pivots(b []int, l, r int) (ps []int) {
	if len(b) == 0 {
		if l == r {
			ps = append(ps, l)
		}
		return
	}
	last := len(b) - 1
	e := s.ends(b[:last], l)
	for p := l; p <= r; p++ {
		if e&(1<<uint(p)) != 0 && s.has(b[last], p, r) {
			ps = append(ps, p)
		}
	}
	return
}

// childSpans lists the extents symbol i of entry e can have.
func (s *Spans) childSpans(e Entry, i int) (sp [][2]int) {
	b := s.c.Prods[e.NT][e.Alt]
	k := len(b)
	if i == k-1 {
		return [][2]int{{e.P, e.R}}
	}
	// symbols b[:k-1] span [L,P]
	for x := e.L; x <= e.P; x++ {
		if s.ends(b[:i], e.L)&(1<<uint(x)) == 0 {
			continue
		}
		for y := x; y <= e.P; y++ {
			if s.has(b[i], x, y) && s.ends(b[i+1:k-1], y)&(1<<uint(e.P)) != 0 {
				sp = append(sp, [2]int{x, y})
			}
		}
	}
	return
}

// kids lists the BSRs nonterminal symbol i of e can have.
func (s *Spans) kids(e Entry, i int) (es []Entry) {
	nt := ntOf(s.c.Prods[e.NT][e.Alt][i])
	for _, sp := range s.childSpans(e, i) {
		es = append(es, s.entries(nt, sp[0], sp[1])...)
	}
	return
}

// Roots lists the root BSRs.
func (s *Spans) Roots() []Entry { return s.entries(0, 0, len(s.w)) }

// ReachableEntries lists the BSRs reachable from the roots.
func (s *Spans) ReachableEntries() map[Entry]bool {
	m := map[Entry]bool{}
	todo := s.Roots()
	for len(todo) > 0 {
		e := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		if m[e] {
			continue
		}
		m[e] = true
		for i, sym := range s.c.Prods[e.NT][e.Alt] {
			if isNT(sym) {
				todo = append(todo, s.kids(e, i)...)
			}
		}
	}
	return m
}

// Sound tells whether the BSR is derivable.
func (s *Spans) Sound(e Entry) bool {
	for _, p := range s.pivots(s.c.Prods[e.NT][e.Alt], e.L, e.R) {
		if p == e.P {
			return true
		}
	}
	return false
}

// AllEntries lists every derivable BSR.
func (s *Spans) AllEntries() map[string]bool {
	m := map[string]bool{}
	n := len(s.w)
	for nt := range s.c.NTs {
		for l := 0; l <= n; l++ {
			for r := l; r <= n; r++ {
				if s.has(ntSym(nt), l, r) {
					for _, e := range s.entries(nt, l, r) {
						m[s.key(e)] = true
					}
				}
			}
		}
	}
	return m
}

// Ambiguous tells whether the input has more than one derivation tree.
func (s *Spans) Ambiguous() bool {
	rt := s.Roots()
	if len(rt) != 1 {
		return true
	}
	for e := range s.ReachableEntries() {
		for i, sym := range s.c.Prods[e.NT][e.Alt] {
			if isNT(sym) && len(s.kids(e, i)) != 1 {
				return true
			}
		}
	}
	return false
}

// CountTrees counts derivation trees up to max; cyclic derivations count as max.
// It is independent of Ambiguous: it expands trees by brute force.
func (s *Spans) CountTrees(max int) int {
	memo := map[[3]int]int{}
	onPath := map[[3]int]bool{}
	cyc := false
	var nt func(x, l, r int) int
	var seq func(b []int, l, r int) int
	clampAdd := func(a, b int) int {
		if a+b > max {
			return max
		}
		return a + b
	}
	nt = func(x, l, r int) int {
		if cyc || !s.has(ntSym(x), l, r) {
			return 0
		}
		k := [3]int{x, l, r}
		if v, ok := memo[k]; ok {
			return v
		}
		if onPath[k] {
			cyc = true
			return 0
		}
		onPath[k] = true
		n := 0
		for _, b := range s.c.Prods[x] {
			n = clampAdd(n, seq(b, l, r))
		}
		delete(onPath, k)
		memo[k] = n
		return n
	}
	seq = func(b []int, l, r int) int {
		if len(b) == 0 {
			if l == r {
				return 1
			}
			return 0
		}
		n := 0
		for m := l; m <= r; m++ {
			if !s.has(b[0], l, m) || s.ends(b[1:], m)&(1<<uint(r)) == 0 {
				continue
			}
			h := 1
			if isNT(b[0]) {
				h = nt(ntOf(b[0]), l, m)
			}
			t := seq(b[1:], m, r)
			if h > 0 && t > 0 {
				if h*t > max {
					n = max
				} else {
					n = clampAdd(n, h*t)
				}
			}
		}
		return n
	}
	n := nt(0, 0, len(s.w))
	if cyc { // only derivable nodes are expanded: infinitely many trees
		return max
	}
	return n
}

/*** SPPF ***/

func (c *CFG) bodyStr(b []int) string {
	ks := []string{}
	for _, s := range b {
		if isNT(s) {
			ks = append(ks, "N:"+c.Name(s))
		} else {
			ks = append(ks, "T:"+c.Name(s))
		}
	}
	return strings.Join(ks, " ")
}

// SPPF returns the edges of the binarised shared packed parse forest.
func (s *Spans) SPPF() []string {
	out := map[string]bool{}
	add := func(f string, a ...interface{}) { out[fmt.Sprintf(f, a...)] = true }
	sn := func(sym, l, r int) string { return fmt.Sprintf("S(%s,%d,%d)", s.c.Name(sym), l, r) }
	seen := map[string]bool{}
	var visitS func(sym, l, r int)
	var visitI func(nt int, b []int, pos, l, r int)
	var visitP func(nt int, b []int, pos, l, p, r int) string
	visitS = func(sym, l, r int) {
		me := sn(sym, l, r)
		if seen[me] {
			return
		}
		seen[me] = true
		add("node %s", me)
		if !isNT(sym) {
			return
		}
		for _, e := range s.entries(ntOf(sym), l, r) {
			b := s.c.Prods[e.NT][e.Alt]
			add("edge %s -> %s", me, visitP(e.NT, b, len(b), e.L, e.P, e.R))
		}
	}
	iname := func(nt int, b []int, pos, l, r int) string {
		return fmt.Sprintf("I(%s:%s.%d,%d,%d)", s.c.NTs[nt], s.c.bodyStr(b), pos, l, r)
	}
	visitI = func(nt int, b []int, pos, l, r int) {
		me := iname(nt, b, pos, l, r)
		if seen[me] {
			return
		}
		seen[me] = true
		add("node %s", me)
		for _, p := range s.pivots(b[:pos], l, r) {
			add("edge %s -> %s", me, visitP(nt, b, pos, l, p, r))
		}
	}
	visitP = func(nt int, b []int, pos, l, p, r int) string {
		me := fmt.Sprintf("P(%s:%s.%d,%d,%d,%d)", s.c.NTs[nt], s.c.bodyStr(b), pos, l, p, r)
		if seen[me] {
			return me
		}
		seen[me] = true
		add("node %s", me)
		if len(b) == 0 {
			e := fmt.Sprintf("S(ϵ,%d,%d)", l, l)
			add("node %s", e)
			add("right %s -> %s", me, e)
			return me
		}
		add("right %s -> %s", me, sn(b[pos-1], p, r))
		visitS(b[pos-1], p, r)
		if pos == 2 {
			add("left %s -> %s", me, sn(b[0], l, p))
			visitS(b[0], l, p)
		}
		if pos > 2 {
			add("left %s -> %s", me, iname(nt, b, pos-1, l, p))
			visitI(nt, b, pos-1, l, p)
		}
		return me
	}
	n := len(s.w)
	visitS(ntSym(0), 0, n)
	add("root %s", sn(ntSym(0), 0, n))
	return sortedKeys(out)
}

/*** Earley: viable prefixes ***/

type eItem struct{ nt, alt, dot, org int }

// Viable returns the length of the longest viable prefix of w (the number of
// tokens a correct prefix parser reads) and the set of terminals (and TEOF)
// that may follow it.
func (c *CFG) Viable(w []int) (int, map[int]bool) {
	sets := []map[eItem]bool{{}}
	for a := range c.Prods[0] {
		sets[0][eItem{0, a, 0, 0}] = true
	}
	for k := 0; ; k++ {
		cur := sets[k]
		// fixpoint
		for changed := true; changed; {
			changed = false
			items := make([]eItem, 0, len(cur))
			for it := range cur {
				items = append(items, it)
			}
			add := func(it eItem) {
				if !cur[it] {
					cur[it] = true
					changed = true
				}
			}
			for _, it := range items {
				b := c.Prods[it.nt][it.alt]
				if it.dot < len(b) {
					if isNT(b[it.dot]) {
						x := ntOf(b[it.dot])
						for a := range c.Prods[x] {
							add(eItem{x, a, 0, k})
						}
						if c.nullable[x] {
							add(eItem{it.nt, it.alt, it.dot + 1, it.org})
						}
					}
					continue
				}
				if it.org == k {
					continue // empty completion: handled through nullable
				}
				for p := range sets[it.org] {
					pb := c.Prods[p.nt][p.alt]
					if p.dot < len(pb) && isNT(pb[p.dot]) && ntOf(pb[p.dot]) == it.nt {
						add(eItem{p.nt, p.alt, p.dot + 1, p.org})
					}
				}
			}
		}
		next := map[eItem]bool{}
		exp := map[int]bool{}
		for it := range cur {
			b := c.Prods[it.nt][it.alt]
			if it.dot == len(b) {
				if it.nt == 0 && it.org == 0 {
					exp[TEOF] = true
				}
				continue
			}
			if s := b[it.dot]; !isNT(s) {
				exp[s] = true
				if k < len(w) && w[k] == s {
					next[eItem{it.nt, it.alt, it.dot + 1, it.org}] = true
				}
			}
		}
		if len(next) == 0 {
			return k, exp
		}
		sets = append(sets, next)
	}
}

/*** canonical LR(1) ***/

type lrItem struct{ nt, alt, dot, la int } // nt -1: augmented start

type lrState struct {
	items map[lrItem]bool
	goTo  map[int]int
}

// LRTable is the canonical LR(1) automaton.
type LRTable struct {
	c        *CFG
	st       []*lrState
	act      []map[int][]lrAct
	Conflict bool
	NConf    int
}

// lrAct: kind 's' shift to N, 'r' reduce (NT,Alt), 'a' accept
type lrAct struct {
	K       byte
	N       int
	NT, Alt int
}

func (c *CFG) lrBody(it lrItem) []int {
	if it.nt < 0 {
		return []int{ntSym(0)}
	}
	return c.Prods[it.nt][it.alt]
}

func (c *CFG) lrClosure(m map[lrItem]bool) {
	todo := []lrItem{}
	for it := range m {
		todo = append(todo, it)
	}
	for len(todo) > 0 {
		it := todo[len(todo)-1]
		todo = todo[:len(todo)-1]
		b := c.lrBody(it)
		if it.dot == len(b) || !isNT(b[it.dot]) {
			continue
		}
		x := ntOf(b[it.dot])
		f, nl := c.FirstOf(b[it.dot+1:])
		if nl {
			f[it.la] = true
		}
		for a := range c.Prods[x] {
			for t := range f {
				n := lrItem{x, a, 0, t}
				if !m[n] {
					m[n] = true
					todo = append(todo, n)
				}
			}
		}
	}
}

func itemsKey(m map[lrItem]bool) string {
	ks := make([]string, 0, len(m))
	for it := range m {
		ks = append(ks, fmt.Sprint(it))
	}
	sort.Strings(ks)
	return strings.Join(ks, ";")
}

// NewLR builds the canonical LR(1) table; nil if it exceeds maxStates.
func (c *CFG) NewLR(maxStates int) *LRTable {
	t := &LRTable{c: c}
	idx := map[string]int{}
	get := func(m map[lrItem]bool) int {
		c.lrClosure(m)
		k := itemsKey(m)
		if i, ok := idx[k]; ok {
			return i
		}
		idx[k] = len(t.st)
		t.st = append(t.st, &lrState{m, map[int]int{}})
		return len(t.st) - 1
	}
	get(map[lrItem]bool{{-1, 0, 0, TEOF}: true})
	for i := 0; i < len(t.st); i++ {
		if len(t.st) > maxStates {
			return nil
		}
		s := t.st[i]
		succ := map[int]map[lrItem]bool{}
		for it := range s.items {
			b := c.lrBody(it)
			if it.dot < len(b) {
				sym := b[it.dot]
				if succ[sym] == nil {
					succ[sym] = map[lrItem]bool{}
				}
				succ[sym][lrItem{it.nt, it.alt, it.dot + 1, it.la}] = true
			}
		}
		syms := []int{}
		for sym := range succ {
			syms = append(syms, sym)
		}
		sort.Ints(syms)
		for _, sym := range syms {
			s.goTo[sym] = get(succ[sym])
		}
	}
	for _, s := range t.st {
		act := map[int][]lrAct{}
		for sym, n := range s.goTo {
			if !isNT(sym) {
				act[sym] = append(act[sym], lrAct{K: 's', N: n})
			}
		}
		for it := range s.items {
			if it.dot != len(c.lrBody(it)) {
				continue
			}
			if it.nt < 0 {
				act[TEOF] = append(act[TEOF], lrAct{K: 'a'})
			} else {
				act[it.la] = append(act[it.la], lrAct{K: 'r', NT: it.nt, Alt: it.alt})
			}
		}
		for _, as := range act {
			if len(as) > 1 {
				t.Conflict = true
				t.NConf++
			}
		}
		t.act = append(t.act, act)
	}
	return t
}

// LRRun is the outcome of a reference LR(1) parse.
type LRRun struct {
	OK    bool
	ErrAt int        // index of the offending token
	Exp   []int      // terminals with an action in the error state
	Acts  []LRReduce // reductions in order
}

// LRReduce is one reduction: production and the term built.
type LRReduce struct {
	NT, Alt int
	Term    string
	Args    []string
}

// Run parses w with the (conflict free) table. tok renders token i.
// resolve picks the action of a conflict.
func (t *LRTable) Run(w []int, tok func(i int) string, resolve func([]lrAct) lrAct) (r LRRun, top string) {
	stack := []int{0}
	vals := []string{""}
	i := 0
	for steps := 0; steps < 100000; steps++ {
		la := TEOF
		if i < len(w) {
			la = w[i]
		}
		s := stack[len(stack)-1]
		as := t.act[s][la]
		if len(as) == 0 {
			r.ErrAt = i
			for x := range t.act[s] {
				r.Exp = append(r.Exp, x)
			}
			sort.Ints(r.Exp)
			return
		}
		a := as[0]
		if len(as) > 1 {
			a = resolve(as)
		}
		switch a.K {
		case 'a':
			r.OK = true
			top = vals[len(vals)-1]
			return
		case 's':
			stack = append(stack, a.N)
			vals = append(vals, tok(i))
			i++
		case 'r':
			n := len(t.c.Prods[a.NT][a.Alt])
			args := append([]string{}, vals[len(vals)-n:]...)
			term := fmt.Sprintf("%s%d(%s)", t.c.NTs[a.NT], a.Alt, strings.Join(args, " "))
			stack, vals = stack[:len(stack)-n], vals[:len(vals)-n]
			g := t.st[stack[len(stack)-1]].goTo[ntSym(a.NT)]
			stack = append(stack, g)
			vals = append(vals, term)
			r.Acts = append(r.Acts, LRReduce{a.NT, a.Alt, term, args})
		}
	}
	r.ErrAt = -1
	return
}

func setNames(c *CFG, m map[int]bool) []string {
	ns := []string{}
	for t := range m {
		ns = append(ns, c.Name(t))
	}
	sort.Strings(ns)
	return ns
}

// InLang tells whether a sequence of any length is a sentence (Earley, with a
// worklist; the membership fixpoint of Spans takes at most 60 tokens).
func (c *CFG) InLang(w []int) bool {
	if len(w) <= 60 {
		return c.NewSpans(w).Accepts()
	}
	type set struct {
		in    map[eItem]bool
		items []eItem
		wait  map[int][]eItem // items that wait for a nonterminal
	}
	mk := func() *set { return &set{in: map[eItem]bool{}, wait: map[int][]eItem{}} }
	add := func(s *set, it eItem) {
		if !s.in[it] {
			s.in[it] = true
			s.items = append(s.items, it)
		}
	}
	sets := []*set{mk()}
	for a := range c.Prods[0] {
		add(sets[0], eItem{0, a, 0, 0})
	}
	for k := 0; ; k++ {
		cur, next := sets[k], mk()
		for i := 0; i < len(cur.items); i++ {
			it := cur.items[i]
			b := c.Prods[it.nt][it.alt]
			switch {
			case it.dot == len(b):
				if it.org < k {
					for _, p := range sets[it.org].wait[it.nt] {
						add(cur, eItem{p.nt, p.alt, p.dot + 1, p.org})
					}
				}
			case isNT(b[it.dot]):
				x := ntOf(b[it.dot])
				cur.wait[x] = append(cur.wait[x], it)
				for a := range c.Prods[x] {
					add(cur, eItem{x, a, 0, k})
				}
				if c.nullable[x] {
					add(cur, eItem{it.nt, it.alt, it.dot + 1, it.org})
				}
			case k < len(w) && b[it.dot] == w[k]:
				add(next, eItem{it.nt, it.alt, it.dot + 1, it.org})
			}
		}
		if k == len(w) {
			for a, b := range c.Prods[0] {
				if cur.in[eItem{0, a, len(b), 0}] {
					return true
				}
			}
			return false
		}
		sets = append(sets, next)
	}
}
