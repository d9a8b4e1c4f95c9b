package main

import (
	"fmt"
	"strings"
)

/*** Grammar model: what the generators build and the reference models read ***/

const (
	LChar  = "char"
	LAny   = "any"
	LAnyOf = "anyof"
	LNot   = "not"
	LClass = "class"
	LUSet  = "uset"
	LRef   = "ref"
	LGroup = "("
	LOpt   = "["
	LStar  = "{"
	LPlus  = "<"
)

// USpec is one item of a Unicode set.
type USpec struct {
	Name string `json:"n"`
	Prop bool   `json:"p,omitempty"`
	Excl bool   `json:"x,omitempty"`
}

// Lex is a lexical symbol.
type Lex struct {
	K    string   `json:"k"`
	S    string   `json:"s,omitempty"` // char, chars, class or tokid
	U    []USpec  `json:"u,omitempty"`
	Alts [][]*Lex `json:"alts,omitempty"`
}

// LexRule is a token definition.
type LexRule struct {
	ID   string `json:"id"`
	Supp bool   `json:"supp,omitempty"`
	Re   []*Lex `json:"re"`
}

// Sym kinds
const (
	KNT  = "N"
	KTok = "T"
	KLit = "L"
)

// Sym is a syntax symbol.
type Sym struct {
	K string `json:"k"`
	N string `json:"n"` // for KLit: the unescaped content
}

// SynRule is a syntax rule.
type SynRule struct {
	NT   string  `json:"nt"`
	Alts [][]Sym `json:"alts"`
}

// Grammar is a complete gogll input.
type Grammar struct {
	Lex   []*LexRule `json:"lex,omitempty"`
	Syn   []*SynRule `json:"syn,omitempty"`
	Order []int      `json:"order,omitempty"` // permutation of Lex++Syn, nil: identity
}

func escStr(s string, quote rune) string {
	var sb strings.Builder
	for _, r := range s {
		switch r {
		case '\\':
			sb.WriteString(`\\`)
		case quote:
			sb.WriteRune('\\')
			sb.WriteRune(quote)
		case '\n':
			sb.WriteString(`\n`)
		case '\r':
			sb.WriteString(`\r`)
		case '\t':
			sb.WriteString(`\t`)
		default:
			sb.WriteRune(r)
		}
	}
	return sb.String()
}

// QChar returns a char literal.
func QChar(s string) string { return "'" + escStr(s, '\'') + "'" }

// QStr returns a string literal.
func QStr(s string) string { return `"` + escStr(s, '"') + `"` }

func (l *Lex) toks() []string {
	switch l.K {
	case LChar:
		return []string{QChar(l.S)}
	case LAny:
		return []string{"."}
	case LAnyOf:
		return []string{"any", QStr(l.S)}
	case LNot:
		return []string{"not", QStr(l.S)}
	case LClass, LRef:
		return []string{l.S}
	case LUSet:
		ts := []string{"'["}
		for _, u := range l.U {
			if u.Excl {
				ts = append(ts, "-")
			}
			ts = append(ts, `\p{`+u.Name+`}`)
		}
		return append(ts, "]'")
	}
	close := map[string]string{LGroup: ")", LOpt: "]", LStar: "}", LPlus: ">"}[l.K]
	ts := []string{l.K}
	for i, a := range l.Alts {
		if i > 0 {
			ts = append(ts, "|")
		}
		ts = append(ts, reToks(a)...)
	}
	return append(ts, close)
}

func reToks(re []*Lex) (ts []string) {
	for _, l := range re {
		ts = append(ts, l.toks()...)
	}
	return
}

func (s Sym) tok() string {
	if s.K == KLit {
		return QStr(s.N)
	}
	return s.N
}

func (r *LexRule) toks() (ts []string) {
	if r.Supp {
		ts = append(ts, "!")
	}
	ts = append(ts, r.ID, ":")
	ts = append(ts, reToks(r.Re)...)
	return append(ts, ";")
}

func (r *SynRule) toks() (ts []string) {
	ts = append(ts, r.NT, ":")
	for i, a := range r.Alts {
		if i > 0 {
			ts = append(ts, "|")
		}
		if len(a) == 0 {
			ts = append(ts, "empty")
		}
		for _, s := range a {
			ts = append(ts, s.tok())
		}
	}
	return append(ts, ";")
}

// RuleToks returns the tokens of every rule, in source order.
func (g *Grammar) RuleToks() (rs [][]string) {
	all := [][]string{}
	for _, r := range g.Lex {
		all = append(all, r.toks())
	}
	for _, r := range g.Syn {
		all = append(all, r.toks())
	}
	if g.Order == nil {
		return all
	}
	for _, i := range g.Order {
		rs = append(rs, all[i])
	}
	return
}

// Text prints the grammar, one rule per line.
func (g *Grammar) Text(pkg string) string {
	var sb strings.Builder
	fmt.Fprintf(&sb, "package %s\n", QStr(pkg))
	for _, r := range g.RuleToks() {
		sb.WriteString(strings.Join(r, " "))
		sb.WriteString("\n")
	}
	return sb.String()
}

// MD wraps text in a markdown code block.
func MD(text string) string { return "# g\n\n```\n" + text + "```\n" }

// Lits returns the distinct string literals.
func (g *Grammar) Lits() (ls []string) {
	seen := map[string]bool{}
	for _, r := range g.Syn {
		for _, a := range r.Alts {
			for _, s := range a {
				if s.K == KLit && !seen[s.N] {
					seen[s.N] = true
					ls = append(ls, s.N)
				}
			}
		}
	}
	return
}

func cloneRe(re []*Lex) []*Lex {
	out := make([]*Lex, len(re))
	for i, l := range re {
		c := *l
		c.U = append([]USpec(nil), l.U...)
		c.Alts = nil
		for _, a := range l.Alts {
			c.Alts = append(c.Alts, cloneRe(a))
		}
		out[i] = &c
	}
	return out
}

// Clone returns a deep copy.
func (g *Grammar) Clone() *Grammar {
	c := &Grammar{Order: append([]int(nil), g.Order...)}
	if g.Order == nil {
		c.Order = nil
	}
	for _, r := range g.Lex {
		c.Lex = append(c.Lex, &LexRule{r.ID, r.Supp, cloneRe(r.Re)})
	}
	for _, r := range g.Syn {
		n := &SynRule{NT: r.NT}
		for _, a := range r.Alts {
			n.Alts = append(n.Alts, append([]Sym{}, a...))
		}
		c.Syn = append(c.Syn, n)
	}
	return c
}
