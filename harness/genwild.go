package main

import (
	"encoding/base64"
	"fmt"
	"strings"
	"unicode"
)

/*** Grammars that use everything the notation allows ***/

var wildNTs = []string{"A", "B", "Expr", "A1", "A11", "A_", "A__0", "Ä", "Σx", "A²", "BⅧ", "C½d", "N٣", "NT", "T_0", "T0", "G", "G0", "G00",
	"Label", "Slot", "Type", "EOF", "Error", "Empty", "String", "R0", "S0R0", "Index", "Symbols", "Token", "Main", "Init", "X", "Ξ", "Ж1", "NT_A", "AR1", "A0R1", "Set", "BSR", "Ǆ", "𝐀", "Z_9é"}
var wildToks = []string{"aa", "a1", "a_", "error", "eof", "type", "func", "package2", "nil", "true", "int", "string", "len", "break", "default", "token", "ast", "init", "main",
	"éé", "ß1", "t_0", "a²", "xⅧ", "anyx", "nots", "empty_", "letters", "zZ", "n٣", "µm", "ｗide", "symbols", "r0", "ok", "𝐚b", "accept", "p0"}
var wildLits = []string{"\"", "\\", "`", "'", "*/", "/*", "//", "%s", "%d%", "{{", "}}", "{{.X}}", "$", "Error", "ϵ", "ℇ", "ε", "EOF", "∙", "😀", "\x00", "\ufeff", "\u2028", "\x7f", ":", ";", "|", "empty",
	"\\n", "\\\"", "\"x\"", "'a'", "<", ">", "&", "&&", "#", "a", "λ", "``", "package", "T_0", "NT_A", "G0", "error", "\x1b[", "\\x", "\\u0041", "日本", "e\u0301", "\u200b", "\ufffd", "...", "%", "/", "\\\\", "'", "!", "]'", "'[", "-", "a-b", ",", "\"\"", "nil", "\b", "␀", "\U0001F1E9\U0001F1EA"}
var wildChars = []string{"`", "\x00", "\ufeff", "\u2028", "%", "/", "*", "\"", "'", "\\", "\n", "\r", "\t", "\x7f", "\v", "{", "\ufffd", "\U0010FFFF", "\u0085", "-", "]", "\u00a0", "\x1b"}

// rename maps the names of a grammar.
func (g *Grammar) rename(nt, tok, lit func(string) string) {
	var re func(ls []*Lex)
	re = func(ls []*Lex) {
		for _, l := range ls {
			if l.K == LRef {
				l.S = tok(l.S)
			}
			for _, a := range l.Alts {
				re(a)
			}
		}
	}
	for _, l := range g.Lex {
		l.ID = tok(l.ID)
		re(l.Re)
	}
	for _, s := range g.Syn {
		s.NT = nt(s.NT)
		for _, a := range s.Alts {
			for i := range a {
				switch a[i].K {
				case KNT:
					a[i].N = nt(a[i].N)
				case KTok:
					a[i].N = tok(a[i].N)
				case KLit:
					a[i].N = lit(a[i].N)
				}
			}
		}
	}
}

// distinct returns a renaming to random distinct names of a pool; names are
// kept with the given probability.
func distinct(r *Rand, pool []string, keep int) func(string) string {
	m := map[string]string{}
	used := map[string]bool{}
	return func(s string) string {
		if n, ok := m[s]; ok {
			return n
		}
		n := s
		for tries := 0; ; tries++ {
			if tries > 0 || !r.P(keep) {
				n = pick(r, pool...)
			}
			if tries > 200 {
				n = fmt.Sprintf("%s%d", n, tries)
			}
			if !used[n] {
				break
			}
		}
		used[n] = true
		m[s] = n
		return n
	}
}

func eachLeaf(re []*Lex, f func(*Lex)) {
	for _, l := range re {
		f(l)
		for _, a := range l.Alts {
			eachLeaf(a, f)
		}
	}
}

// genWild generates a grammar in accordance with the notation and scope rules.
func genWild(r *Rand) *Grammar {
	var g *Grammar
	switch k := r.Intn(100); {
	case k < 45:
		g = genSyn(r, SynOpts{})
	case k < 55:
		g = lrSyn(r, SynOpts{})
	case k < 75:
		g, _ = genLex(r, LexOpts{Refs: true, Supp: true, Lits: r.P(60), Uni: r.P(50), Laminar: r.P(80)})
	case k < 80: // many alternates and names that end in digits
		g = &Grammar{}
		h := pick(r, "A", "G", "T", "Expr")
		n := r.Range(10, 23)
		big := &SynRule{NT: h}
		for i := 0; i < n; i++ {
			a := []Sym{{KLit, fmt.Sprintf("k%d", i)}}
			if r.P(30) {
				a = append(a, Sym{KNT, h + "1"})
			}
			if r.P(10) {
				a = append(a, Sym{KNT, h + "0"})
			}
			big.Alts = append(big.Alts, a)
		}
		big.Alts = append(big.Alts, []Sym{{KNT, h + "1"}, {KNT, h + "0"}})
		g.Syn = []*SynRule{big, {NT: h + "1", Alts: [][]Sym{{{KLit, "x"}}, {{KLit, "y"}, {KNT, h + "1"}}, {}}}, {NT: h + "0", Alts: [][]Sym{{{KLit, "z"}}, {}}}}
		return g
	default:
		g, _ = genLex(r, LexOpts{Refs: true, Supp: true, Uni: r.P(40), Laminar: r.P(80)})
		s := genSyn(r, SynOpts{})
		s.rename(func(s string) string { return s }, func(s string) string { return s + "_s" }, func(s string) string { return s })
		g.Lex = append(g.Lex, s.Lex...)
		g.Syn = s.Syn
		g.Order = nil
	}
	if r.P(60) {
		g.rename(distinct(r, wildNTs, 60), distinct(r, wildToks, 60), func(s string) string { return s })
	}
	if r.P(60) {
		pool := append([]string{}, wildLits...)
		for _, s := range g.Syn {
			pool = append(pool, s.NT, s.NT)
		}
		for _, l := range g.Lex {
			pool = append(pool, l.ID, l.ID)
		}
		g.rename(func(s string) string { return s }, func(s string) string { return s }, distinct(r, pool, 50))
	}
	if r.P(30) {
		for _, l := range g.Lex {
			eachLeaf(l.Re, func(x *Lex) {
				if r.P(30) {
					switch x.K {
					case LChar:
						x.S = pick(r, wildChars...)
					case LAnyOf, LNot:
						if c := pick(r, wildChars...); !strings.Contains(x.S, c) {
							x.S += c
						}
					}
				}
			})
		}
	}
	if len(g.Syn) > 0 && r.P(8) { // a repeated alternate
		s := pick(r, g.Syn...)
		s.Alts = append(s.Alts, append([]Sym{}, pick(r, s.Alts...)...))
	}
	if len(g.Syn) > 0 && r.P(6) { // a rule that is never used
		g.Syn = append(g.Syn, &SynRule{NT: "Unused_x", Alts: [][]Sym{{{KNT, pick(r, g.Syn...).NT}}, {}}})
		g.Order = nil
	}
	if len(g.Syn) > 0 && r.P(5) { // a rule that derives nothing
		g.Syn = append(g.Syn, &SynRule{NT: "Loop_x", Alts: [][]Sym{{{KNT, "Loop_x"}, {KLit, "l"}}}})
		s := pick(r, g.Syn...)
		s.Alts = append(s.Alts, []Sym{{KNT, "Loop_x"}})
		g.Order = nil
	}
	if g.Order == nil && r.P(50) {
		g.Order = interleave(r, len(g.Lex), len(g.Syn))
	}
	return g
}

// layout writes tokens with random white space; markdown wraps it.
func layout(r *Rand, toks []string, md bool) string {
	style := r.Intn(3)
	sep := func(need bool) string {
		if !need && style > 0 && r.P(60) {
			return ""
		}
		switch style {
		case 0:
			return " "
		case 1:
			return pick(r, " ", "\n", "\t", "  ")
		}
		return pick(r, " ", "\n", "\t", "\r\n", "\v", "\u00a0", "\u2003", "\f", " \n\n  ", "\u0085")
	}
	for strict := false; ; strict = true {
		var sb strings.Builder
		for i, t := range toks {
			if i > 0 {
				sb.WriteString(sep(strict))
			} else if style > 0 {
				sb.WriteString(pick(r, "", "\n", " "))
			}
			sb.WriteString(t)
			if t == ";" && r.P(70) {
				sb.WriteString("\n")
			}
		}
		if style > 0 {
			sb.WriteString(pick(r, "", "\n", " ", "\t\n"))
		}
		s := sb.String()
		if strict || sameToks(s, toks) {
			return s
		}
	}
}

func sameToks(s string, toks []string) bool {
	ts := gogllLex([]rune(s))
	if len(ts) != len(toks)+1 {
		return false
	}
	for i, t := range toks {
		if ts[i].S != t {
			return false
		}
	}
	return true
}

// fileToks returns all tokens of a grammar file.
func (g *Grammar) fileToks(r *Rand) (ts []string) {
	ts = []string{"package", QStr("{{PKG}}")}
	for _, rt := range g.RuleToks() {
		for _, t := range rt {
			// raw instead of escaped characters, and needless escapes
			if len(t) > 2 && (t[0] == '\'' || t[0] == '"') && t != "'[" {
				if r.P(10) {
					for _, e := range []string{"\\n\n", "\\t\t", "\\r\r"} {
						if t[0] == '\'' {
							t = strings.ReplaceAll(t, e[:2], e[2:])
						}
					}
				}
			}
			ts = append(ts, t)
		}
	}
	return
}

var vocab = []string{"package", ";", ":", "|", "(", ")", "[", "]", "{", "}", "<", ">", ".", "-", "!", "any", "not", "letter", "upcase", "lowcase", "number", "empty", "'[", "]'", `\p{L}`, `\p{Lu}`, `\p{White_Space}`, "aa", "Bb", "X", "x", `"lit"`, `"a b"`, "'c'", `'\n'`, `""`, "''", "$", `\p{Nope}`, "space", "1", "_", `"\x"`, "é"}

// breakToks makes edits in the tokens of a file.
func breakToks(r *Rand, ts []string) []string {
	ts = append([]string{}, ts...)
	for n := r.Range(1, 2); n > 0 && len(ts) > 0; n-- {
		p := r.Intn(len(ts))
		w := pick(r, vocab...)
		if r.P(30) {
			w = pick(r, ts...)
		}
		switch r.Intn(5) {
		case 0:
			ts = append(ts[:p:p], ts[p+1:]...)
		case 1:
			ts = append(ts[:p:p], append([]string{w}, ts[p:]...)...)
		case 2:
			ts[p] = w
		case 3:
			q := r.Intn(len(ts))
			ts[p], ts[q] = ts[q], ts[p]
		case 4:
			ts = ts[:p]
		}
	}
	return ts
}

// breakScope breaks one of the scope rules, mostly.
func breakScope(r *Rand, g *Grammar) *Grammar {
	g = g.Clone()
	switch r.Intn(7) {
	case 0, 1: // undefined symbol
		if len(g.Syn) > 0 {
			s := pick(r, g.Syn...)
			x := pick(r, Sym{KNT, "Undef"}, Sym{KTok, "undef"})
			if r.P(40) { // named like another symbol
				ns := []string{"String", "Error", "Empty"}
				for _, sr := range g.Syn {
					ns = append(ns, sr.NT, strings.ToLower(sr.NT))
					for _, a := range sr.Alts {
						for _, y := range a {
							if y.K == KLit {
								ns = append(ns, y.N, y.N)
							}
						}
					}
				}
				x = undefLike(r, g, ns, x)
			} else if r.P(30) && len(g.Lex) > 0 {
				x = Sym{KNT, strings.ToUpper(g.Lex[0].ID[:1]) + g.Lex[0].ID[1:]}
				if !unicode.IsUpper([]rune(x.N)[0]) {
					x.N = "Undef"
				}
			}
			k := r.Intn(len(s.Alts))
			s.Alts[k] = append(s.Alts[k][:len(s.Alts[k]):len(s.Alts[k])], x)
		}
	case 2: // duplicate syntax rule
		if len(g.Syn) > 0 {
			s := pick(r, g.Syn...)
			g.Syn = append(g.Syn, &SynRule{s.NT, s.Alts})
			g.Order = nil
		}
	case 3: // duplicate token
		if len(g.Lex) > 0 {
			l := pick(r, g.Lex...)
			g.Lex = append(g.Lex, &LexRule{ID: l.ID, Re: cloneRe(l.Re), Supp: r.P(50)})
			g.Order = nil
		}
	case 4: // recursion
		if len(g.Lex) > 0 {
			l := pick(r, g.Lex...)
			l.Re = append(l.Re, &Lex{K: LRef, S: pick(r, g.Lex...).ID})
		}
	case 5: // another order of tokens
		p := r.Perm(len(g.Lex))
		ls := []*LexRule{}
		for _, i := range p {
			ls = append(ls, g.Lex[i])
		}
		g.Lex = ls
	case 6: // white space in a literal
		if len(g.Syn) > 0 {
			s := pick(r, g.Syn...)
			k := r.Intn(len(s.Alts))
			s.Alts[k] = append(s.Alts[k][:len(s.Alts[k]):len(s.Alts[k])], Sym{KLit, pick(r, "a b", "\n", "x\t", " ", "\r", "a\u00a0b")})
		}
	}
	return g
}

// undefLike returns a symbol with one of the names that is not defined in g.
func undefLike(r *Rand, g *Grammar, names []string, def Sym) Sym {
	ok := []Sym{}
	for _, n := range names {
		rs := []rune(n)
		k := KNT
		switch {
		case len(rs) > 0 && unicode.IsUpper(rs[0]):
		case len(rs) > 1 && unicode.IsLower(rs[0]) && n != "empty" && n != "not" && n != "any" && n != "letter" && n != "upcase" && n != "lowcase" && n != "number" && n != "package":
			k = KTok
		default:
			continue
		}
		bad := false
		for _, x := range rs[1:] {
			bad = bad || !(unicode.IsLetter(x) || unicode.IsNumber(x) || x == '_')
		}
		for _, s := range g.Syn {
			bad = bad || s.NT == n
		}
		for _, l := range g.Lex {
			bad = bad || l.ID == n
		}
		if !bad {
			ok = append(ok, Sym{k, n})
		}
	}
	if len(ok) == 0 {
		return def
	}
	return ok[r.Intn(len(ok))]
}

var lrFlagSets = [][]string{nil, nil, nil, nil, {"-v"}, {"-knuth"}, {"-pager"}, {"-knuth", "-resolve_conflicts"}, {"-pager", "-resolve_conflicts"}, {"-v", "-pager", "-resolve_conflicts"}, {"-v", "-knuth"}, {"-a", "-knuth", "-resolve_conflicts"}, {"-gll"}, {"-bs"}}

// wildCase is a case of C20 and C21.
func wildCase(r *Rand, i int, valid bool) *Case {
	g := genWild(r)
	c := &Case{Kind: "valid", Flags: pick(r, lrFlagSets...)}
	k := r.Intn(100)
	if valid {
		k = 0
	}
	ts := g.fileToks(r)
	switch {
	case k < 35:
	case k < 58:
		c.Kind = "tokens"
		ts = breakToks(r, ts)
	case k < 75:
		c.Kind = "scope"
		ts = breakScope(r, g).fileToks(r)
	case k < 90:
		c.Kind = "runes"
	case k < 96:
		c.Kind = "garbage"
		ts = nil
		for n := r.Range(0, 25); n > 0; n-- {
			ts = append(ts, pick(r, vocab...))
		}
		if r.P(50) {
			ts = append([]string{"package", `"p"`}, ts...)
		}
	default:
		c.Kind = "bytes"
	}
	c.Text = layout(r, ts, false)
	if c.Kind == "runes" || c.Kind == "garbage" && r.P(50) {
		c.Text = mutateText(r, c.Text)
	}
	if c.Kind == "bytes" {
		b := []byte(strings.ReplaceAll(c.Text, "{{PKG}}", "p"))
		for n := r.Range(1, 4); n > 0; n-- {
			p := r.Intn(len(b) + 1)
			b = append(b[:p:p], append([]byte{byte(r.Range(0, 255))}, b[p:]...)...)
		}
		c.Text, c.Args = "", []string{base64.StdEncoding.EncodeToString(b)}
	} else if r.P(20) && !strings.Contains(c.Text, "```") && !strings.Contains(c.Text, "`") {
		c.MD = true
		ps := []string{}
		// cut at rule ends only, so that no literal is cut
		for _, p := range strings.SplitAfter(c.Text, ";\n") {
			ps = append(ps, p)
		}
		if r.P(50) {
			ps = []string{c.Text}
		}
		c.Text = mdWrap(r, ps)
	}
	if c.Text == "" && c.Args == nil {
		c.Args = []string{""}
	}
	return c
}

func (c *Case) fileText() string {
	if c.Args != nil {
		b, _ := base64.StdEncoding.DecodeString(c.Args[0])
		return string(b)
	}
	return c.Text
}
