package main

import (
	"fmt"
	"sort"
	"strings"
	"sync"
	"unicode"
)

/*** Reference DFA: explored states of the NFA over representative runes ***/

// DFA is the reachable part of the subset automaton.
type DFA struct {
	n      *NFA
	Atoms  [][]rune // representatives of the classes of runes the leaves distinguish
	States [][]int
	Access [][]rune
	Trans  [][]int // per state and atom, -1: none
	// Laminar: in every state the classes that can match next are pairwise
	// nested or disjoint.
	Laminar bool
	Full    bool // the exploration is complete
}

// NewDFA explores at most max states.
func NewDFA(g *Grammar, r *Rand, max int) *DFA {
	n := NewNFA(g)
	d := &DFA{n: n, Laminar: true, Full: true}
	leaves := map[string]*Lex{}
	for _, s := range n.st {
		if s.leaf != nil {
			leaves[leafKey(s.leaf)] = s.leaf
		}
	}
	keys := sortedKeys(leaves)
	idx := map[string]int{}
	sets := []RuneSet{}
	pts := []rune{' ', '\n', 'a', 'Z', '0', 0x10FFFF, 0xFFFD}
	for i, k := range keys {
		idx[k] = i
		sets = append(sets, leafSet(leaves[k]))
		pts = append(pts, leafBounds(leaves[k])...)
	}
	sort.Slice(pts, func(i, j int) bool { return pts[i] < pts[j] })
	sig := map[string]int{}
	sigs := [][]bool{}
	buf := make([]byte, len(sets))
	for i, p := range pts {
		if i > 0 && pts[i-1] == p || p > unicode.MaxRune || p < 0 {
			continue
		}
		v := make([]bool, len(sets))
		for k, s := range sets {
			v[k] = s(p)
			buf[k] = '0'
			if v[k] {
				buf[k] = '1'
			}
		}
		a, ok := sig[string(buf)]
		if !ok {
			a = len(d.Atoms)
			sig[string(buf)] = a
			d.Atoms = append(d.Atoms, nil)
			sigs = append(sigs, v)
		}
		d.Atoms[a] = append(d.Atoms[a], p)
	}
	rel := func(a, b int) bool {
		inter, x, y := false, false, false
		for _, v := range sigs {
			inter = inter || v[a] && v[b]
			x = x || v[a] && !v[b]
			y = y || v[b] && !v[a]
		}
		return !inter || !x || !y
	}
	relc := map[[2]int]bool{}
	start := n.closure([]int{n.start})
	num := map[string]int{fmt.Sprint(start): 0}
	d.States = [][]int{start}
	d.Access = [][]rune{nil}
	for i := 0; i < len(d.States); i++ {
		st := d.States[i]
		ls := []int{}
		seen := map[int]bool{}
		for _, s := range st {
			if l := n.st[s].leaf; l != nil {
				k := idx[leafKey(l)]
				if !seen[k] {
					seen[k] = true
					ls = append(ls, k)
				}
			}
		}
		for x := range ls {
			for y := x + 1; y < len(ls); y++ {
				p := [2]int{ls[x], ls[y]}
				ok, have := relc[p]
				if !have {
					ok = rel(p[0], p[1])
					relc[p] = ok
				}
				if !ok {
					d.Laminar = false
				}
			}
		}
		tr := make([]int, len(d.Atoms))
		for a := range d.Atoms {
			c := d.rep(r, a)
			nx := n.step(st, c)
			if nx == nil {
				tr[a] = -1
				continue
			}
			k := fmt.Sprint(nx)
			t, ok := num[k]
			if !ok {
				if len(d.States) >= max {
					d.Full = false
					tr[a] = -1
					continue
				}
				t = len(d.States)
				num[k] = t
				d.States = append(d.States, nx)
				d.Access = append(d.Access, append(append([]rune{}, d.Access[i]...), c))
			}
			tr[a] = t
		}
		d.Trans = append(d.Trans, tr)
	}
	return d
}

func leafKey(l *Lex) string {
	k := l.K + ":"
	if l.K == LAnyOf || l.K == LNot {
		rs := []rune(l.S)
		sort.Slice(rs, func(i, j int) bool { return rs[i] < rs[j] })
		return k + string(rs)
	}
	k += l.S
	for _, u := range l.U {
		k += fmt.Sprintf("|%s%v%v", u.Name, u.Prop, u.Excl)
	}
	return k
}

// rep returns a representative of an atom.
func (d *DFA) rep(r *Rand, a int) rune {
	rs := d.Atoms[a]
	for _, c := range rs {
		if c > ' ' && c < 127 && r.P(60) {
			return c
		}
	}
	return rs[r.Intn(len(rs))]
}

// walk returns a random word of the automaton, from state q.
func (d *DFA) walk(r *Rand, q, max int) (w []rune) {
	for len(w) < max {
		if len(d.n.accepts(d.States[q])) > 0 && r.P(25) {
			return
		}
		as := []int{}
		for a, t := range d.Trans[q] {
			if t >= 0 {
				as = append(as, a)
			}
		}
		if len(as) == 0 {
			return
		}
		a := as[r.Intn(len(as))]
		w = append(w, d.rep(r, a))
		q = d.Trans[q][a]
	}
	return
}

// longRunes returns a text of about n runes or a little more: a lexeme as long
// as the automaton allows, between others and runs of white space.
func (d *DFA) longRunes(r *Rand, n int) (w []rune) {
	far := func(max int) (best []rune) {
		for k := 0; k < 6; k++ {
			var v []rune
			for q := 0; len(v) < max; {
				as := []int{}
				for a, t := range d.Trans[q] {
					if t >= 0 && (t != q || r.P(90)) {
						as = append(as, a)
					}
				}
				if len(as) == 0 {
					break
				}
				a := as[r.Intn(len(as))]
				v = append(v, d.rep(r, a))
				q = d.Trans[q][a]
			}
			if len(v) > len(best) {
				best = v
			}
		}
		return
	}
	for k := r.Intn(4); k > 0; k-- {
		w = append(w, d.walk(r, 0, 6)...)
		w = append(w, ' ')
	}
	for len(w) < n {
		switch r.Intn(4) {
		case 0, 1:
			w = append(w, far(n/(1+r.Intn(3)))...)
			w = append(w, ' ')
		case 2:
			c := pick(r, ' ', '\n', '\t', '\n')
			for m := r.Range(n/4, n/2); m > 0; m-- {
				w = append(w, c)
			}
		default:
			for m := r.Range(2, n/20); m > 0; m -= 8 {
				w = append(w, d.walk(r, 0, 12)...)
				if r.P(50) {
					w = append(w, pick(r, ' ', '\n', '\t', '#'))
				}
			}
		}
	}
	return append(w, d.walk(r, 0, 5)...)
}

/*** Generator of token definitions ***/

// LexOpts tune genLex.
type LexOpts struct {
	Uni      bool // Unicode sets
	Lits     bool // string literals
	Supp     bool
	Refs     bool
	MaxToks  int
	Laminar  bool
	NoSyntax bool
}

var lexChars = []string{"a", "b", "c", "0", "1", "_", "-", ".", "/", "*", "x", "é", "+", "=", "<", "A", "ß"}
var lexOddChars = []string{"'", "\"", "\\", "\n", "\t", "\r", " ", "λ", "中", "\U0001F600", "`", "%", "{", "\u00a0"}

const uniCats = "Cc Cf Co Cs Digit Nd Letter L Lm Lo Lower Ll Mark M Mc Me Mn Nl No Number N Other C Pc Pd Pe Pf Pi Po Ps Punct P Sc Sk Sm So Space Z Symbol S Title Lt Upper Lu Zl Zp Zs"
const uniProps = "ASCII_Hex_Digit Bidi_Control Dash Deprecated Diacritic Extender Hex_Digit Hyphen IDS_Binary_Operator IDS_Trinary_Operator Ideographic Join_Control Logical_Order_Exception Noncharacter_Code_Point Other_Alphabetic Other_Default_Ignorable_Code_Point Other_Grapheme_Extend Other_ID_Continue Other_ID_Start Other_Lowercase Other_Math Other_Uppercase Pattern_Syntax Pattern_White_Space Prepended_Concatenation_Mark Quotation_Mark Radical Regional_Indicator STerm Sentence_Terminal Soft_Dotted Terminal_Punctuation Unified_Ideograph Variation_Selector White_Space"

var uniCatNames, uniPropNames = uniSpecs(uniCats, false), uniSpecs(uniProps, true)

func uniSpecs(names string, prop bool) (us []USpec) {
	for _, n := range strings.Fields(names) {
		us = append(us, USpec{Name: n, Prop: prop})
	}
	return
}

func genLeaf(r *Rand, o LexOpts, pal []string) *Lex {
	set := func() string {
		n := r.Range(1, 4)
		seen := map[string]bool{}
		s := ""
		for i := 0; i < n; i++ {
			c := pal[r.Intn(len(pal))]
			if !seen[c] {
				seen[c] = true
				s += c
			}
		}
		return s
	}
	if o.Uni && r.P(45) {
		return genUSet(r)
	}
	switch k := r.Intn(100); {
	case k < 45:
		return ch(pal[r.Intn(len(pal))])
	case k < 60:
		return &Lex{K: LAnyOf, S: set()}
	case k < 72:
		return &Lex{K: LNot, S: set()}
	case k < 95:
		return &Lex{K: LClass, S: pick(r, "letter", "number", "upcase", "lowcase")}
	}
	return &Lex{K: LAny}
}

func genUSet(r *Rand) *Lex {
	l := &Lex{K: LUSet}
	n := r.Range(1, 3)
	for i := 0; i < n; i++ {
		u := pick(r, uniCatNames...)
		if r.P(35) {
			u = pick(r, uniPropNames...)
		}
		if i > 0 && r.P(50) {
			u.Excl = true
		}
		dup := false
		for _, v := range l.U {
			dup = dup || v.Name == u.Name
		}
		if !dup {
			l.U = append(l.U, u)
		}
	}
	return l
}

var smallOnce sync.Once
var smallSpecs []USpec

// genSmallUSet generates a Unicode set of at most 40 runes, and returns them.
func genSmallUSet(r *Rand) (*Lex, []rune) {
	runes := func(l *Lex) (rs []rune) {
		in := leafSet(l)
		tab := uniTable(l.U[0])
		for _, x := range tab.R16 {
			for c := uint32(x.Lo); c <= uint32(x.Hi) && len(rs) <= 40; c += uint32(x.Stride) {
				if in(rune(c)) {
					rs = append(rs, rune(c))
				}
			}
		}
		for _, x := range tab.R32 {
			for c := x.Lo; c <= x.Hi && len(rs) <= 40; c += x.Stride {
				if in(rune(c)) {
					rs = append(rs, rune(c))
				}
			}
		}
		return
	}
	smallOnce.Do(func() {
		for _, u := range append(append([]USpec{}, uniCatNames...), uniPropNames...) {
			if n := len(runes(&Lex{K: LUSet, U: []USpec{u}})); n > 0 && n <= 40 {
				smallSpecs = append(smallSpecs, u)
			}
		}
	})
	for {
		l := &Lex{K: LUSet, U: []USpec{pick(r, smallSpecs...)}}
		if r.P(35) {
			u := genUSet(r).U[0]
			u.Excl = true
			if u.Name != l.U[0].Name {
				l.U = append(l.U, u)
			}
		}
		if rs := runes(l); len(rs) > 0 && len(rs) <= 40 {
			return l, rs
		}
	}
}

func genRe(r *Rand, o LexOpts, pal []string, refs []string, depth int) (re []*Lex) {
	for n := pick(r, 1, 1, 2, 2, 3); n > 0; n-- {
		switch {
		case depth > 0 && r.P(38):
			b := &Lex{K: pick(r, LGroup, LOpt, LStar, LStar, LPlus)}
			for k := pick(r, 1, 1, 2, 2, 3); k > 0; k-- {
				b.Alts = append(b.Alts, genRe(r, o, pal, refs, depth-1))
			}
			re = append(re, b)
		case o.Refs && len(refs) > 0 && r.P(25):
			re = append(re, &Lex{K: LRef, S: refs[r.Intn(len(refs))]})
		default:
			re = append(re, genLeaf(r, o, pal))
		}
	}
	return
}

func cls(s string) *Lex { return &Lex{K: LClass, S: s} }
func brk(k string, alts ...[]*Lex) *Lex {
	return &Lex{K: k, Alts: alts}
}
func sq(ls ...*Lex) []*Lex { return ls }

// lexTemplates are common token definitions.
var lexTemplates = []func() []*Lex{
	func() []*Lex {
		return sq(cls("letter"), brk(LStar, sq(cls("letter")), sq(cls("number")), sq(ch("_"))))
	},
	func() []*Lex { return sq(cls("lowcase"), brk(LStar, sq(cls("letter")), sq(cls("number")))) },
	func() []*Lex { return sq(cls("upcase"), brk(LStar, sq(cls("upcase")), sq(ch("_")))) },
	func() []*Lex { return sq(brk(LPlus, sq(cls("number")))) },
	func() []*Lex {
		return sq(brk(LPlus, sq(cls("number"))), brk(LOpt, sq(ch("."), brk(LPlus, sq(cls("number"))))))
	},
	func() []*Lex {
		return sq(brk(LStar, sq(cls("number"))), ch("."), brk(LPlus, sq(cls("number"))), brk(LOpt, sq(&Lex{K: LAnyOf, S: "eE"}, brk(LOpt, sq(&Lex{K: LAnyOf, S: "+-"})), brk(LPlus, sq(cls("number"))))))
	},
	func() []*Lex {
		return sq(ch("\""), brk(LStar, sq(&Lex{K: LNot, S: "\\\""}), sq(ch("\\"), &Lex{K: LAnyOf, S: "\\\"nrt"})), ch("\""))
	},
	func() []*Lex {
		return sq(ch("'"), brk(LGroup, sq(&Lex{K: LNot, S: "'\\"}), sq(ch("\\"), &Lex{K: LAnyOf, S: "\\'nrt"})), ch("'"))
	},
	func() []*Lex { return sq(ch("/"), ch("/"), brk(LStar, sq(&Lex{K: LNot, S: "\n"}))) },
	func() []*Lex {
		return sq(ch("/"), ch("*"), brk(LStar, sq(&Lex{K: LNot, S: "*"}), sq(ch("*"), &Lex{K: LNot, S: "/"})), ch("*"), ch("/"))
	},
	func() []*Lex { return sq(&Lex{K: LAnyOf, S: "+-*/"}, brk(LOpt, sq(ch("=")))) },
	func() []*Lex { return sq(ch("<"), &Lex{K: LAny}, ch(">")) },
	func() []*Lex { return sq(cls("letter"), brk(LStar, sq(brk(LOpt, sq(ch("_"))), cls("letter")))) },
	func() []*Lex {
		return sq(brk(LPlus, sq(brk(LOpt, sq(ch("a"))), brk(LStar, sq(ch("b")), sq(brk(LPlus, sq(ch("c"))))))))
	},
	func() []*Lex { return sq(ch("0"), ch("x"), brk(LPlus, sq(&Lex{K: LAnyOf, S: "0123456789abcdef"}))) },
	func() []*Lex { return sq(&Lex{K: LNot, S: " "}, ch("!")) },
	func() []*Lex { return sq(ch("a"), brk(LStar, sq(&Lex{K: LNot, S: "\""})), ch("\"")) },
}

var tokNames = []string{"id", "num", "ws1", "cmt", "str_lit", "op", "t0", "t1", "zz", "aB", "x_y9", "kw", "éa", "tok2", "a2", "a10", "a11", "b_", "while2", "in", "dot", "eq"}

// genLex generates token definitions (with a syntax rule that uses the literals
// if o.Lits). The result is lexOK.
func genLex(r *Rand, o LexOpts) (*Grammar, *DFA) {
	for {
		g := &Grammar{}
		pal := []string{}
		for n := r.Range(2, 6); n > 0; n-- {
			if r.P(15) {
				pal = append(pal, pick(r, lexOddChars...))
			} else {
				pal = append(pal, pick(r, lexChars...))
			}
		}
		max := o.MaxToks
		if max == 0 {
			max = 5
		}
		names := r.Perm(len(tokNames))
		refs := []string{}
		long := "" // a token with a long body
		n := r.Range(1, max)
		many := !o.Uni && max > 1 && r.P(4)
		if many {
			n = r.Range(9, len(names))
		}
		for i := 0; i < n; i++ {
			var re []*Lex
			if many && r.P(85) { // operators and words with common prefixes
				for k := r.Range(1, 4); k > 0; k-- {
					re = append(re, ch(pal[r.Intn(1+len(pal)/2)]))
				}
				if r.P(8) {
					re = append(re, brk(pick(r, LOpt, LStar, LPlus), sq(ch(pick(r, pal...)))))
				}
			} else if long != "" && r.P(60) {
				re = append(sq(&Lex{K: LRef, S: long}), genRe(r, o, pal, refs, 1)...)
			} else if r.P(4) || o.Refs && max > 1 && r.P(3) {
				for k := r.Range(9, 36); k > 0; k-- {
					re = append(re, genLeaf(r, LexOpts{}, pal[:1+r.Intn(len(pal))]))
				}
				if o.Refs && long == "" {
					long = tokNames[names[i]]
					if n < i+4 && n < len(names)-3 {
						n = i + 4
					}
				}
			} else if !o.Uni && r.P(45) {
				re = cloneRe(pick(r, lexTemplates...)())
				if r.P(25) && len(refs) > 0 && o.Refs {
					re = append(re, &Lex{K: LRef, S: pick(r, refs...)})
				}
			} else {
				re = genRe(r, o, pal, refs, 3)
			}
			lr := &LexRule{ID: tokNames[names[i]], Re: re, Supp: o.Supp && r.P(25)}
			g.Lex = append(g.Lex, lr)
			refs = append(refs, lr.ID)
		}
		if o.Lits {
			g.Syn = []*SynRule{{NT: "S"}}
			d := NewDFA(g, r, 60)
			seen := map[string]bool{}
			for n := r.Range(1, 4); n > 0; n-- {
				var w string
				if r.P(60) {
					w = string(d.walk(r, 0, 5))
				} else {
					for k := r.Range(1, 3); k > 0; k-- {
						w += pick(r, pal...)
					}
				}
				if r.P(6) {
					w = g.someName(r)
				}
				if !litOK(w) || seen[w] {
					continue
				}
				seen[w] = true
				g.Syn[0].Alts = append(g.Syn[0].Alts, []Sym{{KLit, w}})
			}
			for _, l := range g.Lex {
				if r.P(40) {
					g.Syn[0].Alts = append(g.Syn[0].Alts, []Sym{{KTok, l.ID}})
				}
			}
			if len(g.Syn[0].Alts) == 0 {
				continue
			}
			if r.P(50) {
				g.Order = interleave(r, len(g.Lex), 1)
			}
		}
		d := NewDFA(g, r, 80)
		if o.Laminar && !d.Laminar || !d.Full {
			continue
		}
		return g, d
	}
}

// litOK tells whether a string may be a string literal of the syntax.
func litOK(s string) bool {
	if s == "" {
		return false
	}
	for _, c := range s {
		if unicode.IsSpace(c) || c == 0xFFFD || c >= 0xD800 && c < 0xE000 {
			return false
		}
	}
	return true
}

// someName returns a name that a string literal may share.
func (g *Grammar) someName(r *Rand) string {
	ns := []string{"$", "Error", "ϵ", "ℇ", "G0", "EOF", "empty", "T_0"}
	for _, l := range g.Lex {
		ns = append(ns, l.ID)
	}
	for _, n := range g.Syn {
		ns = append(ns, n.NT)
	}
	n := pick(r, ns...)
	if r.P(10) {
		n = `"` + n + `"`
	}
	return n
}

// LitID returns the ID of a string literal: its content, or, if that is also the
// name of another symbol or reserved, its content in quotes.
func (g *Grammar) LitID(s string) string {
	if !g.hasName(s) && s != "Error" && s != "$" && s != "ϵ" && s != "ℇ" && s != "G0" {
		return s
	}
	lits := map[string]bool{}
	for _, l := range g.Lits() {
		lits[l] = true
	}
	for s = `"` + s + `"`; lits[s]; s = `"` + s + `"` {
	}
	return s
}

// hasName: a token or NT of that name exists.
func (g *Grammar) hasName(s string) bool {
	for _, l := range g.Lex {
		if l.ID == s {
			return true
		}
	}
	for _, n := range g.Syn {
		if n.NT == s {
			return true
		}
	}
	return false
}

// lexInputs generates texts for a lexer: every transition of the reference
// automaton is a candidate.
func lexInputs(r *Rand, d *DFA, n, maxLen int) (ins [][]rune) {
	seen := map[string]bool{}
	add := func(w []rune) {
		if len(w) > maxLen {
			w = w[:maxLen]
		}
		if k := string(w); !seen[k] {
			seen[k] = true
			ins = append(ins, append([]rune{}, w...))
		}
	}
	add(nil)
	type qa struct{ q, a int }
	all := []qa{}
	for q := range d.States {
		for a := range d.Atoms {
			all = append(all, qa{q, a})
		}
	}
	p := r.Perm(len(all))
	for k := 0; k < len(p) && len(ins) < n*6/10; k++ {
		x := all[p[k]]
		w := append(append([]rune{}, d.Access[x.q]...), d.rep(r, x.a))
		if t := d.Trans[x.q][x.a]; t >= 0 {
			if r.P(50) {
				w = append(w, d.walk(r, t, 8)...)
			}
		} else if r.P(50) {
			w = append(w, d.walk(r, 0, 8)...)
		}
		add(w)
	}
	for k := 0; k < 4*n && len(ins) < n; k++ {
		var w []rune
		for m := r.Range(1, 6); m > 0; m-- {
			w = append(w, d.walk(r, 0, 6)...)
			switch r.Intn(6) {
			case 0:
				w = append(w, ' ')
			case 1:
				w = append(w, []rune(pick(r, "\n", "\t", "\r\n", " \n\n", "\u00a0", "\u2028", "\u0085"))...)
			case 2:
				if len(w) > 0 {
					w = w[:len(w)-1]
				}
			case 3:
				w = append(w, pick(r, '$', '~', 'Q', '9', 0, 0x7f, 0x10FFFF, 'é', '\''))
			}
		}
		add(w)
	}
	return
}

func reWords(re []*Lex) string { return strings.Join(reToks(re), " ") }
