package main

import (
	"fmt"
	"sort"
	"strings"

	"vh/shared"
)

/*** C06: markdown ***/

// blank is what a markdown text means: every rune outside the code blocks is a
// blank, except for line ends, and so are the backticks of the fences.
func blank(s string) string {
	in := []rune(s)
	code := false
	for i := 0; i < len(in); i++ {
		if i+2 < len(in) && in[i] == '`' && in[i+1] == '`' && in[i+2] == '`' {
			in[i], in[i+1], in[i+2] = ' ', ' ', ' '
			i += 2
			code = !code
			continue
		}
		if !code && in[i] != '\n' {
			in[i] = ' '
		}
	}
	return string(in)
}

func genProse(r *Rand) string {
	var sb strings.Builder
	for n := r.Range(0, 8); n > 0; n-- {
		sb.WriteString(pick(r, "text", " ", "\n", "# Title\n", "`x`", "``", "Foo : bar ;", "package \"q\"", "\"", "'", "'c'", "é中😀", "|", "\t", "\r\n", "* item\n", "!", "``", "{ ( <", "\u00a0", "//", ";", "`", "\\"))
		if r.P(70) {
			sb.WriteString(" ")
		}
	}
	s := sb.String()
	for strings.Contains(s, "```") {
		s = strings.ReplaceAll(s, "```", "`` ")
	}
	return strings.TrimRight(s, "`") // a fence follows
}

// mdWrap spreads pieces of code over code blocks.
func mdWrap(r *Rand, pieces []string) string {
	var sb strings.Builder
	sb.WriteString(genProse(r))
	open := false
	for _, p := range pieces {
		if !open {
			sb.WriteString("```" + pick(r, "\n", " ", "", "\r\n", "\n\n"))
			open = true
		}
		sb.WriteString(p + pick(r, "\n", " ", "\n\n", "\r\n", "\t\n"))
		if r.P(45) {
			sb.WriteString("```" + pick(r, "\n", "", " "))
			open = false
			if r.P(60) {
				sb.WriteString(genProse(r))
			}
		}
	}
	if open && r.P(80) {
		sb.WriteString("```" + pick(r, "\n", "", " end"))
		open = false
	}
	if !open {
		sb.WriteString(genProse(r))
	}
	return sb.String()
}

func genTree(o *UnitOut) map[string]string {
	m := ReadTree(o.Dir)
	for k := range m {
		if k == "g.md" || k == "g.bnf" {
			delete(m, k)
		}
	}
	return m
}

func diffTrees(a, b map[string]string) string {
	for _, k := range sortedKeys(a) {
		y, ok := b[k]
		if !ok {
			return "only the first has " + k
		}
		if x := a[k]; x != y {
			i := 0
			for i < len(x) && i < len(y) && x[i] == y[i] {
				i++
			}
			lo := i - 60
			if lo < 0 {
				lo = 0
			}
			return fmt.Sprintf("%s differs at byte %d:\n%s\n--- and\n%s", k, i, clip(x[lo:], 200), clip(y[lo:], 200))
		}
	}
	for _, k := range sortedKeys(b) {
		if _, ok := a[k]; !ok {
			return "only the second has " + k
		}
	}
	return ""
}

// mutateText makes a small edit in a text.
func mutateText(r *Rand, s string) string {
	rs := []rune(s)
	for n := r.Range(1, 3); n > 0 && len(rs) > 0; n-- {
		p := r.Intn(len(rs))
		switch r.Intn(4) {
		case 0:
			rs = append(rs[:p:p], rs[p+1:]...)
		case 1:
			rs = append(rs[:p:p], append([]rune(pick(r, ";", ":", "|", "\"", "'", "(", ")", "{", "}", "<", ">", "[", "]", "!", "x", "X", "empty", "any", "not", ".", "\\", "\n", " ", "é", "package", "'['", "0")), rs[p:]...)...)
		case 2:
			q := r.Intn(len(rs))
			rs[p], rs[q] = rs[q], rs[p]
		case 3:
			q := p + r.Intn(8)
			if q > len(rs) {
				q = len(rs)
			}
			rs = append(rs[:p:p], rs[q:]...)
		}
	}
	return string(rs)
}

func init() {
	register(&Prop{
		ID: "C06", N: [2]int{420, 4000}, Batch: 120,
		Rule: "a case is either a generated lexer with 25 generated markdown files (prose with stray backticks and grammar-like text, code blocks with lexemes at any place of a line, empty, adjacent and unclosed blocks), whose tokens and positions NewFile must deliver as New does for the blanked text, or a generated grammar, sometimes broken by edits, spread over code blocks, on which gogll must write the same files and messages as on the blanked text; an evaluation is one file; non-trivial = it has at least two fences",
		Gen: func(r *Rand, i int) *Case {
			if i%4 == 0 {
				g, d := genLex(r, LexOpts{Refs: true, Supp: true, Lits: i%3 == 0})
				c := &Case{Kind: "lex", G: g}
				ins := lexInputs(r, d, 30, 25)
				for n := 25; n > 0; n-- {
					ps := []string{}
					for k := r.Range(0, 5); k > 0; k-- {
						ps = append(ps, string(ins[r.Intn(len(ins))]))
					}
					t := mdWrap(r, ps)
					if r.P(15) {
						t = mutateText(r, t)
					}
					mode := ".md"
					if r.P(15) {
						mode = pick(r, ".bnf", ".txt", "md", ".md.txt", "")
					}
					c.Jobs = append(c.Jobs, &shared.Job{Op: "lexmd", Input: t, Mode: mode})
				}
				return c
			}
			c := &Case{Kind: "gen", Flags: pick(r, nil, nil, nil, []string{"-knuth", "-resolve_conflicts"}, []string{"-pager", "-resolve_conflicts"}, []string{"-v"})}
			var g *Grammar
			if r.P(50) {
				g = genSyn(r, SynOpts{})
			} else {
				g, _ = genLex(r, LexOpts{Refs: true, Supp: true, Lits: r.P(50), Uni: r.P(30)})
			}
			pieces := []string{}
			for _, rule := range strings.SplitAfter(g.Text("p"), "\n") {
				if r.P(50) {
					pieces = append(pieces, rule)
					continue
				}
				// break a rule over several pieces; never inside quotes
				cut := ""
				for _, tok := range strings.Fields(rule) {
					if strings.ContainsAny(cut, "'\"") != true && r.P(20) && strings.Count(cut, "\"")%2 == 0 && strings.Count(cut, "'")%2 == 0 {
						pieces = append(pieces, cut)
						cut = ""
					}
					cut += tok + " "
				}
				pieces = append(pieces, cut)
			}
			c.Text = mdWrap(r, pieces)
			if r.P(20) {
				c.Text = mutateText(r, c.Text)
			}
			return c
		},
		Expand: func(c *Case) []*Unit {
			if c.Kind == "lex" {
				u := &Unit{G: c.G}
				for _, j := range c.Jobs {
					b := j.Input
					if strings.HasSuffix(j.Mode, ".md") {
						b = blank(b)
					}
					u.Jobs = append(u.Jobs, j, runesJob("lexfull", []rune(b)))
				}
				return []*Unit{u}
			}
			return []*Unit{{Text: c.Text, MD: true, Flags: c.Flags, NoBuild: true}, {Text: blank(c.Text), Flags: c.Flags, NoBuild: true}}
		},
		Valid: func(c *Case) bool { return c.Kind == "gen" || lexValid(false)(c) },
		Judge: func(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
			if c.Kind == "lex" {
				if f := unitFail(os[0]); f != nil {
					return f
				}
				for k, j := range c.Jobs {
					a, b := os[0].Res[2*k], os[0].Res[2*k+1]
					for _, r := range []*shared.Res{a, b} {
						if f := resFail(k, j.Input, r); f != nil {
							return f
						}
					}
					st.C("file type " + j.Mode)
					st.Ev(c.G.Text("p")+j.Mode+j.Input, strings.Count(j.Input, "```") > 1)
					want := j.Input
					if strings.HasSuffix(j.Mode, ".md") {
						want = blank(want)
					}
					if string(a.In) != want {
						return failf(k, "file in%s %q: the input of the lexer is %q, want %q", j.Mode, j.Input, string(a.In), want)
					}
					if x, y := fmt.Sprintf("%+v", a.Toks), fmt.Sprintf("%+v", b.Toks); x != y {
						return failf(k, "file in%s %q: tokens\n %s\nbut for the blanked text\n %s", j.Mode, j.Input, clip(x, 1500), clip(y, 1500))
					}
				}
				return nil
			}
			st.Ev(strings.Join(c.Flags, " ")+c.Text, strings.Count(c.Text, "```") > 1)
			a, b := os[0], os[1]
			if a.Gogll.Panicked() && b.Gogll.Panicked() {
				return nil // C20
			}
			st.C(fmt.Sprintf("gogll exit %d", a.Gogll.Code))
			if a.Gogll.Code != b.Gogll.Code {
				return failf(-1, "gogll on the markdown file: exit %d\n%s\non the blanked text: exit %d\n%s", a.Gogll.Code, clip(a.Gogll.Out, 800), b.Gogll.Code, clip(b.Gogll.Out, 800))
			}
			x, y := strings.Split(strings.ReplaceAll(a.Gogll.Out, "g.md", "g.bnf"), "\n"), strings.Split(b.Gogll.Out, "\n")
			if c.Flags == nil || a.Gogll.Code == 0 {
				sort.Strings(x)
				sort.Strings(y)
				if strings.Join(x, "\n") != strings.Join(y, "\n") && !strings.Contains(b.Gogll.Out, "xpected one of") {
					return failf(-1, "gogll on the markdown file printed\n%s\non the blanked text\n%s", clip(a.Gogll.Out, 1200), clip(b.Gogll.Out, 1200))
				}
			}
			if d := diffTrees(genTree(a), genTree(b)); d != "" {
				return failf(-1, "files generated from the markdown file and from the blanked text: %s", d)
			}
			if a.Gogll.Code == 0 {
				st.Samples = append(st.Samples, c.Text)
			}
			return nil
		},
	})
}
