package main

import (
	"fmt"
	"strconv"
	"strings"
	"unicode"

	"vh/shared"
)

/*** C01-C08: generated lexers ***/

// lexValid: the grammar is a legal input of the C01 family.
func lexValid(lam bool) func(c *Case) bool {
	return func(c *Case) bool {
		if c.G == nil || len(c.G.Lex)+len(c.G.Syn) == 0 || !lexOK(c.G) {
			return false
		}
		if len(c.G.Syn) > 0 && !synOK(c.G) {
			return false
		}
		ok := true
		for _, l := range c.G.Lex {
			eachLeaf(l.Re, func(x *Lex) {
				if x.K == LUSet && (len(x.U) == 0 || x.U[0].Excl) {
					ok = false // the first part of a set is never excluded
				}
			})
		}
		if !ok {
			return false
		}
		d := NewDFA(c.G, NewRand(1), 200)
		return d.Full && (!lam || d.Laminar)
	}
}

func rkey(in []rune) string {
	var sb strings.Builder
	for _, c := range in {
		fmt.Fprintf(&sb, "%x,", c)
	}
	return sb.String()
}

func runesJob(op string, in []rune) *shared.Job {
	if in == nil {
		in = []rune{}
	}
	return &shared.Job{Op: op, Runes: in}
}

func tokStr(ts []shared.Tok) string {
	var sb strings.Builder
	for i, t := range ts {
		if i > 0 {
			sb.WriteString(" ")
		}
		fmt.Fprintf(&sb, "%s(%d,%d)", t.T, t.L, t.R)
	}
	return clip(sb.String(), 800)
}

// refStream compares a token stream with the reference tokenisation; pref:
// literals must win.
func refStream(n *NFA, in []rune, toks []shared.Tok, pref bool, st *Stats) string {
	ref := n.Lex(in)
	k := 0
	want := func() string {
		var sb strings.Builder
		for _, t := range ref {
			ns := []string{}
			for _, c := range t.Cands {
				ns = append(ns, n.Terms[c].ID)
			}
			if len(ns) == 0 {
				ns = []string{"Error"}
			}
			fmt.Fprintf(&sb, "%s(%d,%d) ", strings.Join(ns, "/"), t.L, t.R)
		}
		return clip(sb.String(), 800) + "$"
	}
	bad := func(f string, a ...interface{}) string {
		return fmt.Sprintf(f, a...) + "\n tokens   " + clip(tokStr(toks), 3000) + "\n reference " + clip(want(), 3000)
	}
	for _, t := range ref {
		c := t.Cands
		if pref {
			c = n.prefer(c)
		}
		supp, unsupp := 0, 0
		for _, x := range c {
			if n.Terms[x].Supp {
				supp++
			} else {
				unsupp++
			}
		}
		if unsupp == 0 && supp > 0 {
			st.C("suppressed token")
			continue
		}
		have := k < len(toks) && toks[k].L == t.L
		if supp > 0 && !have {
			continue // a tie of a suppressed and another definition: either may win
		}
		if !have {
			return bad("no token at %d", t.L)
		}
		g := toks[k]
		if g.R != t.R {
			return bad("token %d ends at %d, want %d", k, g.R, t.R)
		}
		if len(c) == 0 {
			st.C("error token")
			if g.T != "Error" {
				return bad("token %d is %s, want Error", k, g.T)
			}
		} else {
			ok := false
			for _, x := range c {
				ok = ok || n.Terms[x].ID == g.T && !n.Terms[x].Supp
			}
			if !ok {
				return bad("token %d is %s", k, g.T)
			}
			if len(t.Cands) > 1 {
				st.C("several definitions match")
			}
		}
		k++
	}
	if k != len(toks)-1 {
		return bad("%d tokens besides end of input, want %d", len(toks)-1, k)
	}
	if e := toks[k]; e.T != "$" || e.L != len(in) || e.R != len(in) {
		return bad("last token is %s(%d,%d)", e.T, e.L, e.R)
	}
	return ""
}

func lexStreamJudge(pref bool) func(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
	return func(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
		if f := unitFail(os[0]); f != nil {
			return f
		}
		n := NewNFA(c.G)
		gk := c.G.Text("p")
		for k, j := range c.Jobs {
			in := j.InputRunes()
			r := os[0].Res[k]
			if f := resFail(k, string(in), r); f != nil {
				return f
			}
			nt := false
			for _, t := range n.Lex(in) {
				if pref {
					lit, def := false, false
					for _, x := range t.Cands {
						lit, def = lit || n.Terms[x].Lit, def || !n.Terms[x].Lit
					}
					nt = nt || lit && def
				} else {
					nt = nt || t.R-t.L > 1
				}
			}
			st.Ev(gk+rkey(in), nt)
			if m := refStream(n, in, r.Toks, pref, st); m != "" {
				return failf(k, "input %q: %s", clip(string(in), 2000), m)
			}
			if len(in) > 1000 {
				st.C("more than 1000 runes")
				continue
			}
			if nt {
				sample(st, c, string(in), tokStr(r.Toks))
			}
		}
		return nil
	}
}

func lexGen(o LexOpts, n, maxLen int) func(r *Rand, i int) *Case {
	return func(r *Rand, i int) *Case {
		oo := o
		if !o.Lits && i%3 == 0 {
			oo.Lits = true
		}
		if i%4 == 1 {
			oo.Uni = true
		}
		g, d := genLex(r, oo)
		c := &Case{G: g, MD: r.P(20)}
		for _, in := range lexInputs(r, d, n, maxLen) {
			c.Jobs = append(c.Jobs, runesJob("lex", in))
		}
		if i%9 == 2 {
			c.Jobs = append(c.Jobs, runesJob("lex", d.longRunes(r, pick(r, 1100, 5000, 34000, 67000))))
		}
		return c
	}
}

// addKeywords adds literals that are lexemes, prefixes or extensions of lexemes
// of the token definitions.
func addKeywords(r *Rand, g *Grammar) {
	d := NewDFA(&Grammar{Lex: g.Lex}, r, 60)
	if len(g.Syn) == 0 {
		g.Syn = []*SynRule{{NT: "S"}}
	}
	seen := map[string]bool{}
	for _, l := range g.Lits() {
		seen[l] = true
	}
	for n := r.Range(2, 5); n > 0; n-- {
		w := d.walk(r, 0, 5)
		switch r.Intn(5) {
		case 0:
			if len(w) > 1 {
				w = w[:len(w)-1]
			}
		case 1:
			w = append(w, 'q')
		}
		s := string(w)
		if litOK(s) && !seen[s] {
			seen[s] = true
			g.Syn[0].Alts = append(g.Syn[0].Alts, []Sym{{KLit, s}})
		}
	}
}

func unsupp(g *Grammar) *Grammar {
	c := g.Clone()
	for _, l := range c.Lex {
		l.Supp = false
	}
	return c
}

func init() {
	register(&Prop{
		ID: "C01", N: [2]int{360, 5000}, Batch: 140,
		Rule:   "a case is a set of generated token definitions (templates such as identifiers, numbers, strings, comments, and random regular expressions; laminar classes) with up to 70 texts that cover the transitions of the reference automaton, concatenated lexemes, truncations and foreign runes; an evaluation compares the whole token stream of one text with the NFA simulation; non-trivial = some token is longer than one rune, distinct by (grammar, text)",
		Assume: []string{"the runs of Go's package unicode define the classes"},
		Gen:    lexGen(LexOpts{Refs: true, Laminar: true, Supp: true}, 70, 40),
		Valid:  lexValid(true),
		Judge:  lexStreamJudge(false),
	})

	register(&Prop{
		ID: "C02", N: [2]int{320, 4000}, Batch: 120,
		Rule: "a case is a set of generated token definitions and string literals made of lexemes of these definitions, their prefixes and extensions, in any order of definition, with up to 60 texts; an evaluation compares the token stream of one text with the reference, in which literals win; non-trivial = some lexeme matches a literal and a token definition",
		Gen: func(r *Rand, i int) *Case {
			for {
				g, _ := genLex(r, LexOpts{Refs: true, Laminar: true, Lits: r.P(50), Uni: i%4 == 1, Supp: i%5 == 0})
				addKeywords(r, g)
				if len(g.Lits()) == 0 {
					continue
				}
				g.Order = interleave(r, len(g.Lex), len(g.Syn))
				d := NewDFA(g, r, 80)
				if !d.Laminar || !d.Full {
					continue
				}
				c := &Case{G: g, MD: r.P(20)}
				ins := lexInputs(r, d, 45, 30)
				for _, l := range g.Lits() {
					ins = append(ins, []rune(l), []rune(l+" "+l), append([]rune(l), d.walk(r, 0, 4)...))
				}
				for _, in := range ins {
					c.Jobs = append(c.Jobs, runesJob("lex", in))
				}
				return c
			}
		},
		Valid: lexValid(true),
		Judge: lexStreamJudge(true),
	})

	register(&Prop{
		ID: "C03", N: [2]int{140, 2500}, Batch: 140,
		Rule: "a case is a set of generated token definitions, some suppressed, compiled twice: as it is and without the marks; an evaluation compares, for one text, the first token stream with the second one filtered; non-trivial = the text has a suppressed token",
		Gen: func(r *Rand, i int) *Case {
			for {
				g, d := genLex(r, LexOpts{Refs: true, Supp: true, Lits: i%2 == 0, Uni: i%4 == 1, Laminar: i%3 > 0})
				n := 0
				for _, l := range g.Lex {
					if l.Supp {
						n++
					}
				}
				if n == 0 {
					g.Lex[r.Intn(len(g.Lex))].Supp = true
				}
				c := &Case{G: g}
				for _, in := range lexInputs(r, d, 60, 40) {
					c.Jobs = append(c.Jobs, runesJob("lex", in))
				}
				return c
			}
		},
		Expand: func(c *Case) []*Unit {
			return []*Unit{{G: c.G, Jobs: c.Jobs}, {G: unsupp(c.G), Jobs: c.Jobs}}
		},
		Valid: lexValid(false),
		Judge: func(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
			for _, o := range os {
				if f := unitFail(o); f != nil {
					return f
				}
			}
			supp := map[string]bool{}
			for _, l := range c.G.Lex {
				supp[l.ID] = l.Supp
			}
			for k, j := range c.Jobs {
				in := j.InputRunes()
				for _, o := range os {
					if f := resFail(k, string(in), o.Res[k]); f != nil {
						return f
					}
				}
				want := []shared.Tok{}
				for _, t := range os[1].Res[k].Toks {
					if t.S {
						return failf(k, "input %q: a token of a grammar without suppressed tokens is suppressed: %v", string(in), t)
					}
					if !supp[t.T] {
						want = append(want, t)
					}
				}
				st.Ev(c.G.Text("p")+rkey(in), len(want) < len(os[1].Res[k].Toks))
				if a, b := tokStr(os[0].Res[k].Toks), tokStr(want); a != b {
					return failf(k, "input %q: with suppression: %s\n without, filtered: %s", string(in), a, b)
				}
				for _, t := range os[0].Res[k].Toks {
					if t.S {
						return failf(k, "input %q: delivered token %s says it is suppressed", string(in), t.T)
					}
				}
				if len(want) < len(os[1].Res[k].Toks) {
					sample(st, c, string(in), tokStr(want))
				}
			}
			return nil
		},
	})

	register(&Prop{
		ID: "C04", N: [2]int{200, 3500}, Batch: 120,
		Rule: "a case is a set of generated token definitions without restriction (overlapping classes, nullable definitions, suppressed tokens) with up to 50 rune sequences, a third of them with invalid code points (negative, surrogates, beyond U+10FFFF) and odd white space; an evaluation checks tiling, text and positions of one token stream and GetString of all ranges; non-trivial = at least 2 tokens besides end of input",
		Gen: func(r *Rand, i int) *Case {
			g, d := genLex(r, LexOpts{Refs: true, Supp: true, Lits: i%3 == 0, Uni: i%4 == 1})
			c := &Case{G: g, MD: r.P(20)}
			for x, in := range lexInputs(r, d, 50, 60) {
				if x%3 == 0 {
					for n := r.Range(1, 4); n > 0; n-- {
						p := r.Intn(len(in) + 1)
						odd := pick(r, -1, -0x80000000, 0xD800, 0xDFFF, 0x110000, 0x7FFFFFFF, 0, 0xFFFD, 0xFEFF, '\t', '\n', '\r', 0x85, 0x2029, 0x3000, '\v')
						in = append(in[:p:p], append([]rune{odd}, in[p:]...)...)
					}
				}
				c.Jobs = append(c.Jobs, runesJob(pick(r, "lexfull", "lexfull", "getstring"), in))
			}
			if i%9 == 2 {
				in := d.longRunes(r, pick(r, 1100, 5000, 67000))
				if n := len(NewNFA(g).Lex(in)); n <= 40 || n*len(in) < 30000000 {
					c.Jobs = append(c.Jobs, runesJob("lexfull", in))
				}
			}
			return c
		},
		Valid: lexValid(false),
		Judge: func(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
			if f := unitFail(os[0]); f != nil {
				return f
			}
			n := NewNFA(c.G)
			supp := map[int]bool{}
			anySupp := false
			for i, t := range n.Terms {
				supp[i] = t.Supp
				anySupp = anySupp || t.Supp
			}
			for k, j := range c.Jobs {
				in := j.InputRunes()
				r := os[0].Res[k]
				if f := resFail(k, string(in)+" "+rkey(in), r); f != nil {
					return f
				}
				st.Ev(c.G.Text("p")+rkey(in), len(r.Toks) > 2)
				if m := judgeTiling(n, in, r, j.Op, anySupp); m != "" {
					return failf(k, "input %q %x: %s\n tokens %s", clip(string(in), 2000), head(in), m, clip(tokStr(r.Toks), 2000))
				}
				for _, x := range in {
					if x < 0 || x > unicode.MaxRune || x >= 0xD800 && x < 0xE000 {
						st.C("invalid code points")
						break
					}
				}
				if len(in) > 1000 {
					st.C("more than 1000 runes")
					continue
				}
				if len(r.Toks) > 3 {
					sample(st, c, string(in), tokStr(r.Toks))
				}
			}
			return nil
		},
	})

	register(&Prop{
		ID: "C05", N: [2]int{128, 1000}, Batch: 48,
		Rule: "a case is 1 to 4 token definitions '#' SET suffix, SET a letter class, character set or Unicode set of any categories and properties, pairwise nested or disjoint; the lexer is run on '#' + c + suffix for every rune c of Unicode and every suffix; an evaluation is one suffix (all 1114112 runes) compared with package unicode; non-trivial = the answer differs between at least two runes; in addition every category and property is used in turn",
		Gen:  genC05,
		Valid: func(c *Case) bool {
			for _, j := range c.Jobs {
				if j.Input != "#" {
					return false
				}
			}
			for _, l := range c.G.Lex {
				if len(l.Re) < 2 || l.Re[0].K != LChar || l.Re[0].S != "#" {
					return false
				}
			}
			return lexValid(true)(c)
		},
		Judge: judgeC05,
	})

	register(&Prop{
		ID: "C08", N: [2]int{260, 3500}, Batch: 120,
		Rule: "a case is a generated grammar (any literals, token names and suppressions), whose token tables are read back, with up to 25 texts full of escapes; an evaluation is the tables of one grammar, or the accessors of one token stream; non-trivial = the grammar has at least 3 terminals, or a token has a backslash",
		Gen: func(r *Rand, i int) *Case {
			g, d := genLex(r, LexOpts{Refs: true, Supp: true, Lits: i%4 > 0, MaxToks: pick(r, 3, 5, 12)})
			for n := r.Intn(6); n > 0 && len(g.Syn) > 0; n-- {
				w := ""
				for k := r.Range(1, 4); k > 0; k-- {
					w += pick(r, "a", "\\", "\"", "'", "n", "t", "{", "λ", "%", "`", "0", "$", "_", "中", "é", "/")
				}
				if r.P(10) {
					w = g.someName(r)
				}
				if litOK(w) {
					dup := false
					for _, l := range g.Lits() {
						dup = dup || l == w
					}
					if !dup {
						g.Syn[0].Alts = append(g.Syn[0].Alts, []Sym{{KLit, w}})
					}
				}
			}
			c := &Case{G: g, MD: r.P(20), Jobs: []*shared.Job{{Op: "meta"}}}
			if i%2 == 0 {
				// tokens made of backslashes
				g.Lex = append(g.Lex, &LexRule{ID: "esc_tok", Re: sq(ch("\\"), brk(LStar, sq(&Lex{K: LAnyOf, S: "\\nrt'\"ab"})))})
				g.Order = nil
				if d2 := NewDFA(g, r, 80); d2.Full {
					d = d2
				}
				for n := 12; n > 0; n-- {
					in := []rune{'\\'}
					for k := r.Range(0, 6); k > 0; k-- {
						in = append(in, pick(r, '\\', 'n', 't', 'r', 'a', '\'', '"'))
					}
					c.Jobs = append(c.Jobs, runesJob("lexfull", in))
				}
			}
			for _, in := range lexInputs(r, d, 12, 30) {
				c.Jobs = append(c.Jobs, runesJob("lexfull", in))
			}
			return c
		},
		Valid: lexValid(false),
		Judge: judgeC08,
	})
}

// judgeTiling checks C04 on one answer.
func judgeTiling(n *NFA, in []rune, r *shared.Res, op string, anySupp bool) string {
	if r.NIn != len(in) {
		return fmt.Sprintf("the lexer has %d input runes, want %d", r.NIn, len(in))
	}
	ts := r.Toks
	if len(ts) == 0 {
		return "no tokens"
	}
	at := 0
	for i, t := range ts {
		last := i == len(ts)-1
		if (t.T == "$") != last {
			return fmt.Sprintf("token %d of %d is %s", i, len(ts), t.T)
		}
		if last {
			if t.L != len(in) || t.R != len(in) {
				return fmt.Sprintf("end of input is at (%d,%d), want %d", t.L, t.R, len(in))
			}
		} else if t.R <= t.L || t.R > len(in) {
			return fmt.Sprintf("token %d has extent (%d,%d)", i, t.L, t.R)
		}
		if t.L < at {
			return fmt.Sprintf("token %d at %d overlaps the one before, which ends at %d", i, t.L, at)
		}
		if m := gapOK(n, in[at:t.L], anySupp); !m {
			return fmt.Sprintf("the input %q from %d to %d is neither white space nor suppressed tokens", string(in[at:t.L]), at, t.L)
		}
		at = t.R
		if op != "lexfull" {
			continue
		}
		ln, col := lineCol(in, t.L)
		if t.Ln != ln || t.Col != col {
			return fmt.Sprintf("token %d: Token.GetLineColumn = %d,%d, want %d,%d", i, t.Ln, t.Col, ln, col)
		}
		if t.Ln2 != ln || t.Col2 != col {
			return fmt.Sprintf("token %d: Lexer.GetLineColumn = %d,%d, want %d,%d", i, t.Ln2, t.Col2, ln, col)
		}
		if t.Ln3 != ln || t.Col3 != col {
			return fmt.Sprintf("token %d: Lexer.GetLineColumnOfToken = %d,%d, want %d,%d", i, t.Ln3, t.Col3, ln, col)
		}
		if want := string(in[t.L:t.R]); t.LitS != want || rkey(t.Lit) != rkey(in[t.L:t.R]) {
			return fmt.Sprintf("token %d: Literal = %q, LiteralString = %q, want %q", i, t.Lit, t.LitS, want)
		}
	}
	if op == "getstring" {
		k := 0
		for a := 0; a < len(ts); a++ {
			for b := a; b < len(ts); b++ {
				if k >= len(r.Strs) {
					return "GetString: missing answers"
				}
				if want := string(in[ts[a].L:ts[b].R]); r.Strs[k] != want {
					return fmt.Sprintf("GetString(%d,%d) = %q, want %q", a, b, r.Strs[k], want)
				}
				k++
			}
		}
	}
	return ""
}

// gapOK: the runes between tokens split into white space and texts that some
// suppressed token definition matches.
func gapOK(n *NFA, gap []rune, anySupp bool) bool {
	ws := true
	for _, c := range gap {
		ws = ws && unicode.IsSpace(c)
	}
	if ws {
		return true
	}
	if !anySupp {
		return false
	}
	if len(gap) > 3000 {
		return true // would take too long
	}
	ok := make([]bool, len(gap)+1)
	ok[0] = true
	for i := range gap {
		if !ok[i] {
			continue
		}
		if unicode.IsSpace(gap[i]) {
			ok[i+1] = true
		}
		cur := n.closure([]int{n.start})
		for j := i; j < len(gap); j++ {
			cur = n.step(cur, gap[j])
			if cur == nil {
				break
			}
			for _, a := range n.accepts(cur) {
				if n.Terms[a].Supp {
					ok[j+1] = true
				}
			}
		}
	}
	return ok[len(gap)]
}

/*** C05 ***/

func genC05(r *Rand, i int) *Case {
	for {
		g := &Grammar{}
		sufs := []string{""}
		n := r.Range(1, 4)
		all := append(append([]USpec{}, uniCatNames...), uniPropNames...)
		var small *Lex
		var around string // a list of characters nested with a small set
		if i%4 == 3 {
			var rs []rune
			small, rs = genSmallUSet(r)
			n = r.Range(2, 4)
			p := r.Perm(len(rs))
			if r.P(20) && len(rs) > 1 { // within the set
				p = p[:r.Range(1, len(rs)-1)]
			} else {
				for m := pick(r, 0, 1, 2); m > 0; m-- {
					around += pick(r, "~", "Q", "3", "_", "é", "\u2027", "\u202a", "中")
				}
			}
			for _, k := range p {
				if around == "" || !strings.ContainsRune(around, rs[k]) {
					around += string(rs[k])
				}
			}
		}
		for k := 0; k < n; k++ {
			var l *Lex
			switch {
			case k == 0 && small != nil:
				l = small
			case k == 1 && small != nil:
				l = &Lex{K: LAnyOf, S: around}
				if len([]rune(around)) == 1 && r.P(60) {
					l.K = LChar
				} else if r.P(15) {
					l.K = LNot
				}
			case k == 0:
				l = &Lex{K: LUSet, U: []USpec{all[i%len(all)]}}
				if r.P(40) {
					x := genUSet(r)
					for _, u := range x.U {
						if u.Name != l.U[0].Name {
							u.Excl = u.Excl || r.P(30)
							l.U = append(l.U, u)
						}
					}
				}
			case r.P(60):
				l = genUSet(r)
			case r.P(40):
				l = &Lex{K: LClass, S: pick(r, "letter", "number", "upcase", "lowcase")}
			default:
				s := ""
				for m := r.Range(1, 4); m > 0; m-- {
					c := pick(r, "a", "Z", "5", "é", "Ǆ", "ǅ", "ʰ", "ª", "中", "٣", "Ⅷ", "½", "_", "-", "$", "\u00a0", "😀", "\U0010FFFF")
					if !strings.Contains(s, c) {
						s += c
					}
				}
				l = &Lex{K: pick(r, LChar, LAnyOf, LNot), S: s}
				if l.K == LChar {
					l.S = string([]rune(s)[:1])
				}
			}
			if r.P(8) {
				l = &Lex{K: LAny}
			}
			re := sq(ch("#"), l)
			if suf := pick(r, "", "x", "y", "z"); suf != "" && k > 0 {
				re = append(re, ch(suf))
				dup := false
				for _, s := range sufs {
					dup = dup || s == suf
				}
				if !dup {
					sufs = append(sufs, suf)
				}
			}
			g.Lex = append(g.Lex, &LexRule{ID: tokNames[k], Re: re})
		}
		if r.P(50) {
			p := r.Perm(len(g.Lex))
			ls := g.Lex
			g.Lex = nil
			for _, k := range p {
				g.Lex = append(g.Lex, ls[k])
			}
		}
		d := NewDFA(g, r, 60)
		if !d.Laminar || !d.Full {
			continue
		}
		return &Case{G: g, Jobs: []*shared.Job{{Op: "allrunes", Input: "#", Ins: sufs}}}
	}
}

func judgeC05(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
	if f := unitFail(os[0]); f != nil {
		return f
	}
	n := NewNFA(c.G)
	leaves := map[string]RuneSet{}
	for _, l := range c.G.leaves() {
		leaves[leafKey(l)] = leafSet(l)
	}
	keys := sortedKeys(leaves)
	for k, j := range c.Jobs {
		r := os[0].Res[k]
		if f := resFail(k, "all runes", r); f != nil {
			return f
		}
		pre := []rune(j.Input)
		for s, suf := range j.Ins {
			rows := strings.Split(strings.TrimSpace(r.Strs[s]), "\n")
			cache := map[string][2]string{}
			buf := make([]byte, len(keys))
			row, got := 0, ""
			distinct := map[string]bool{}
			for x := rune(0); x <= unicode.MaxRune; x++ {
				for row < len(rows) {
					p := strings.IndexByte(rows[row], ':')
					at, err := strconv.Atoi(rows[row][:p])
					if err != nil {
						die("allrunes: %q", rows[row])
					}
					if rune(at) > x {
						break
					}
					got = rows[row][p+1:]
					row++
				}
				for i, kk := range keys {
					buf[i] = '0'
					if leaves[kk](x) {
						buf[i] = '1'
					}
				}
				w, ok := cache[string(buf)]
				if !ok {
					in := append(append(append([]rune{}, pre...), x), []rune(suf+"\n")...)
					t := n.scanAt(in, 0)
					w[0] = fmt.Sprintf(":%d", t.R)
					for _, a := range t.Cands {
						w[1] += "\x00" + n.Terms[a].ID + "\x00"
					}
					if len(t.Cands) == 0 {
						w[1] = "\x00Error\x00"
					}
					cache[string(buf)] = w
				}
				p := strings.LastIndexByte(got, ':')
				if p < 0 || got[p:] != w[0] || !strings.Contains(w[1], "\x00"+got[:p]+"\x00") {
					return failf(k, "input %q %U %q: token:length %q, want one of %q with length %s", j.Input, x, suf, got, strings.Fields(strings.ReplaceAll(w[1], "\x00", " ")), w[0][1:])
				}
				distinct[got] = true
			}
			st.Ev(c.G.Text("p")+suf, len(distinct) > 1)
			st.CN("runes checked", unicode.MaxRune+1)
		}
		for _, l := range c.G.leaves() {
			for _, u := range l.U {
				st.C("set:" + u.Name)
			}
		}
		sample(st, c, "all runes", fmt.Sprintf("%q: %d runs of equal tokens", j.Ins, strings.Count(r.Strs[0], "\n")))
	}
	return nil
}

/*** C08 ***/

func stripEsc(in []rune) (out []rune) {
	for i := 0; i < len(in); i++ {
		if in[i] != '\\' || i == len(in)-1 {
			out = append(out, in[i])
			continue
		}
		i++
		switch in[i] {
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		default:
			out = append(out, in[i])
		}
	}
	return
}

func judgeMeta(g *Grammar, m *shared.Meta) string {
	n := len(m.IDs)
	terms := map[string]bool{"Error": false, "$": false}
	for _, t := range g.LTerms() {
		terms[t.ID] = t.Supp || terms[t.ID]
	}
	if len(m.Strs) != n || len(m.TypID) != n || len(m.TypS) != n || len(m.Supp) != n || len(m.IDTo) != n || len(m.StrTo) != n {
		return fmt.Sprintf("table sizes: TypeToString %d, TypeToID %d, Suppress %d, IDToType %d, StringToType %d", len(m.TypS), len(m.TypID), len(m.Supp), len(m.IDTo), len(m.StrTo))
	}
	if n != len(terms) {
		return fmt.Sprintf("%d token types %q, want %d", n, m.IDs, len(terms))
	}
	for i := 0; i < n; i++ {
		if m.IDs[i] != m.TypID[i] || m.Strs[i] != m.TypS[i] {
			return fmt.Sprintf("type %d: ID %q, TypeToID %q, String %q, TypeToString %q", i, m.IDs[i], m.TypID[i], m.Strs[i], m.TypS[i])
		}
		s, ok := terms[m.IDs[i]]
		if !ok {
			return fmt.Sprintf("type %d has ID %q, which is no terminal", i, m.IDs[i])
		}
		if t, ok := m.IDTo[m.IDs[i]]; !ok || t != i {
			return fmt.Sprintf("IDToType[%q] = %d, want %d", m.IDs[i], t, i)
		}
		if t, ok := m.StrTo[m.Strs[i]]; !ok || t != i {
			return fmt.Sprintf("StringToType[%q] = %d, want %d", m.Strs[i], t, i)
		}
		if m.Supp[i] != s {
			return fmt.Sprintf("Suppress of %q is %v, want %v", m.IDs[i], m.Supp[i], s)
		}
	}
	if m.IDs[m.EOF] != "$" || m.IDs[m.Err] != "Error" {
		return fmt.Sprintf("EOF is %q, Error is %q", m.IDs[m.EOF], m.IDs[m.Err])
	}
	return ""
}

func judgeC08(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
	if f := unitFail(os[0]); f != nil {
		return f
	}
	for k, j := range c.Jobs {
		in := j.InputRunes()
		r := os[0].Res[k]
		if f := resFail(k, string(in), r); f != nil {
			return f
		}
		if j.Op == "meta" {
			st.Ev(c.G.Text("p"), len(r.Meta.IDs) > 4)
			if m := judgeMeta(c.G, r.Meta); m != "" {
				return failf(k, "token tables: %s", m)
			}
			continue
		}
		nt := false
		for i, t := range r.Toks {
			lit := in[t.L:t.R]
			for _, x := range lit {
				nt = nt || x == '\\'
			}
			if t.EscP != "" {
				return failf(k, "input %q: token %d %q: LiteralStripEscape: panic %s", string(in), i, string(lit), t.EscP)
			}
			w := stripEsc(lit)
			if rkey(w) != rkey(t.Esc) || string(w) != t.EscS {
				return failf(k, "input %q: token %d %q: LiteralStripEscape = %q, LiteralStringStripEscape = %q, want %q", string(in), i, string(lit), string(t.Esc), t.EscS, string(w))
			}
			if rkey(t.Lit) != rkey(lit) || t.LitS != string(lit) {
				return failf(k, "input %q: token %d: Literal = %q, LiteralString = %q, want %q", string(in), i, string(t.Lit), t.LitS, string(lit))
			}
		}
		st.Ev(c.G.Text("p")+rkey(in), nt)
		if nt {
			sample(st, c, string(in), tokStr(r.Toks))
		}
	}
	return nil
}

// head returns the first runes of a text.
func head(in []rune) []rune {
	if len(in) > 60 {
		return in[:60]
	}
	return in
}
