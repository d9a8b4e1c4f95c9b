package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"

	"vh/shared"
)

/*** C16-C19: LR(1) parsers ***/

const maxLRStates = 260

// lrTemplates are grammars that are LR(1) but not LALR(1) or SLR(1), or that make
// the merging of states delicate.
var lrTemplates = []string{
	`S: a A d | b B d | a B e | b A e ; A: c ; B: c`,
	`S: a A d | b B d | a B e | b A e | c A f | c B g ; A: x ; B: x`,
	`S: a A d | b B d | a B e | b A e ; A: c A1 ; B: c B1 ; A1: y ; B1: y`,
	`S: a X a | a Y b | b X b | b Y a ; X: c X | c ; Y: c Y | c`,
	`S: a X d | a Y c | a Z e | b X e | b Z d | b T ; X: e X | e ; Y: e ; Z: t u ; T: u X a ; U: b`,
	`S: A a | b A c | d c | b d a ; A: d`,
	`S: L = R | R ; L: * R | i ; R: L`,
	`S: a G d | a A c | b A d | b G c ; G: e | ; A: e | `,
	`X: a Y d | a Z c | a T | b Y e | b Z d | b T ; Y: t W | u X ; Z: t u ; T: u X a ; W: u V ; V: `,
	`S: ( X | E ] | F ) ; X: E ) | F ] ; E: A ; F: A ; A: `,
	`S: A A ; A: a A | b`,
	`P: P S ; | ; S: i = E | p E ; E: E + i | i`,
	`E: E + T | T ; T: T * F | F ; F: ( E ) | i | i [ E ]`,
	`L: L I | ; I: i : L2 . ; L2: L2 , i | `,
	`S: O a | O b c ; O: x | `,
	`S: N S2 ; N: x N | ; S2: y | z`,
	`S: a B C d | a C e ; B: b | ; C: c | `,
	`D: T V ; T: i | f ; V: V , i | i`,
	`S: { M } ; M: M , R | R ; R: s : V ; V: s | n | { M } | { } | [ W ] ; W: V | W , V`,
}

// ctxSyn: nonterminals with common bodies in different contexts.
func ctxSyn(r *Rand) *Grammar {
	g := &Grammar{Syn: []*SynRule{{NT: "S"}}}
	pre := []string{"a", "b", "c", "d"}[:r.Range(2, 4)]
	suf := []string{"d", "e", "f", "g", ""}[:r.Range(2, 5)]
	nts := []string{"A", "B", "C"}[:r.Range(2, 3)]
	lit := func(s string) Sym { return Sym{KLit, s} }
	for n := r.Range(3, 7); n > 0; n-- {
		a := []Sym{lit(pick(r, pre...)), {KNT, pick(r, nts...)}}
		if r.P(15) {
			a = append(a, Sym{KNT, pick(r, nts...)})
		}
		if s := pick(r, suf...); s != "" {
			a = append(a, lit(s))
		}
		g.Syn[0].Alts = append(g.Syn[0].Alts, a)
	}
	x := pick(r, "x", "a", "d")
	extra := []*SynRule{}
	if r.P(50) {
		u := &SynRule{NT: "U"}
		for n := r.Range(1, 2); n > 0; n-- {
			u.Alts = append(u.Alts, pick(r, []Sym{lit("y")}, []Sym{}, []Sym{lit(x), {KNT, "U"}}, []Sym{lit("z")}))
		}
		extra = append(extra, u)
	}
	for _, nt := range nts {
		sr := &SynRule{NT: nt}
		for n := pick(r, 1, 1, 1, 2, 2, 3); n > 0; n-- {
			a := []Sym{}
			for k := pick(r, 0, 1, 1, 1, 2); k > 0; k-- {
				a = append(a, lit(pick(r, x, x, x, "y")))
			}
			switch {
			case len(extra) > 0 && r.P(40):
				a = append(a, Sym{KNT, "U"})
			case r.P(12):
				a = append(a, Sym{KNT, nt})
			case r.P(12):
				a = append(a, Sym{KNT, pick(r, nts...)})
			case r.P(10):
				a = append([]Sym{{KNT, nt}}, a...)
			}
			sr.Alts = append(sr.Alts, a)
		}
		g.Syn = append(g.Syn, sr)
	}
	g.Syn = append(g.Syn, extra...)
	return g
}

// lrSyn generates a grammar for the LR(1) checks.
func lrSyn(r *Rand, o SynOpts) *Grammar {
	for {
		var g *Grammar
		switch {
		case r.P(35):
			g = ctxSyn(r)
		case r.P(25):
			g = wideSyn(r)
		case r.P(35):
			g = parseTemplate(pick(r, lrTemplates...))
			for k := r.Intn(4) - 1; k > 0; k-- {
				mutateSyn(r, g)
			}
		default:
			return genSyn(r, o)
		}
		if !fixSyn(r, g) {
			continue
		}
		renameTerms(r, g, o)
		addLex(r, g)
		if r.P(40) {
			renameNTs(r, g)
		}
		if r.P(50) {
			g.Order = interleave(r, len(g.Lex), len(g.Syn))
		}
		return g
	}
}

// lrKind classifies an automaton: does merging by cores change it?
func (t *LRTable) lrKind() string {
	if t.Conflict {
		return "not LR(1)"
	}
	cores := map[string]map[lrItem]bool{}
	for _, s := range t.st {
		core := map[lrItem]bool{}
		for it := range s.items {
			x := it
			x.la = 0
			core[x] = true
		}
		k := itemsKey(core)
		if cores[k] == nil {
			cores[k] = map[lrItem]bool{}
		}
		for it := range s.items {
			cores[k][it] = true
		}
	}
	if len(cores) == len(t.st) {
		return "LR(1), no states to merge"
	}
	for _, its := range cores {
		red := map[int]map[[2]int]bool{}
		for it := range its {
			if it.dot == len(t.c.lrBody(it)) {
				if red[it.la] == nil {
					red[it.la] = map[[2]int]bool{}
				}
				red[it.la][[2]int{it.nt, it.alt}] = true
			}
		}
		for _, m := range red {
			if len(m) > 1 {
				return "LR(1), not LALR(1)"
			}
		}
	}
	return "LALR(1) with mergeable states"
}

// lrCase generates an LR(1) grammar with inputs.
func lrCase(r *Rand, n, maxLen, long int, job func(w []int, ok bool, t string) *shared.Job) *Case {
	for {
		g := lrSyn(r, SynOpts{LRBias: true, MaxNT: 5})
		c := NewCFG(g)
		t := c.NewLR(maxLRStates)
		if t == nil || t.Conflict {
			continue
		}
		if k := t.lrKind(); k == "LR(1), no states to merge" && r.P(45) {
			continue
		}
		sl := NewSynLex(g, c)
		cs := &Case{G: g, MD: r.P(20)}
		seen := map[string]bool{}
		for _, w := range append(genInputs(r, c, n, maxLen), c.longInputs(r, long)...) {
			s := render(r, g, c, w)
			if seen[s] {
				continue
			}
			seen[s] = true
			x, _ := sl.Lex(s)
			if j := job(x, c.InLang(x), s); j != nil {
				cs.Jobs = append(cs.Jobs, j)
			}
		}
		if len(cs.Jobs) > 1 {
			return cs
		}
	}
}

func lrValid(c *Case) bool {
	if !synValid(c) {
		return false
	}
	t := NewCFG(c.G).NewLR(maxLRStates)
	return t != nil && !t.Conflict
}

func lrUnits(c *Case) []*Unit {
	return []*Unit{
		{G: c.G, Jobs: c.Jobs, MD: c.MD, Flags: []string{"-knuth"}},
		{G: c.G, Jobs: c.Jobs, MD: c.MD, Flags: []string{"-pager"}},
	}
}

var lrNames = []string{"Knuth", "Pager"}

// eachLR runs f on every job's answers, of both parsers.
func eachLR(c *Case, os []*UnitOut, st *Stats, f func(k int, in string, w []int, ext [][2]int, cf *CFG, t *LRTable, which int, r *shared.Res) *Fail) *Fail {
	for i, o := range os {
		if fl := unitFail(o); fl != nil {
			fl.Msg = lrNames[i] + ": " + fl.Msg
			return fl
		}
	}
	cf := NewCFG(c.G)
	t := cf.NewLR(maxLRStates)
	st.C(t.lrKind())
	sl := NewSynLex(c.G, cf)
	for k, j := range c.Jobs {
		in := string(j.InputRunes())
		w, ext := sl.Lex(in)
		for i, o := range os {
			r := o.Res[k]
			if fl := resFail(k, in, r); fl != nil {
				fl.Msg = lrNames[i] + ": " + fl.Msg
				return fl
			}
			if fl := f(k, in, w, ext, cf, t, i, r); fl != nil {
				fl.Msg = lrNames[i] + ": " + fl.Msg
				return fl
			}
		}
	}
	return nil
}

func lrTok(cf *CFG, w []int, ext [][2]int) func(i int) string {
	return func(i int) string { return fmt.Sprintf("%s@%d", cf.Name(w[i]), ext[i][0]) }
}

// lrResolve is the documented resolution of conflicts.
func (t *LRTable) lrResolve(as []lrAct) lrAct {
	best := as[0]
	rank := func(a lrAct) int {
		switch a.K {
		case 's':
			return -2
		case 'a':
			return -1
		}
		return a.NT*1000 + a.Alt
	}
	for _, a := range as {
		if rank(a) < rank(best) {
			best = a
		}
	}
	return best
}

// loops: reductions without input may never end in an automaton with resolved
// conflicts (cycles and hidden left recursion).
func (c *CFG) loops() bool {
	if c.cyclic() {
		return true
	}
	n := len(c.NTs)
	// edge x -> y: x: α y β, α nullable; strong: α is not empty
	reach := make([][]int, n)
	for i := range reach {
		reach[i] = make([]int, n)
	}
	for x, as := range c.Prods {
		for _, b := range as {
			for i, s := range b {
				if !isNT(s) {
					break
				}
				v := 1
				if i > 0 {
					v = 2
				}
				if y := ntOf(s); reach[x][y] < v {
					reach[x][y] = v
				}
				if !c.nullable[ntOf(s)] {
					break
				}
			}
		}
	}
	for k := 0; k < n; k++ {
		for i := 0; i < n; i++ {
			for j := 0; j < n; j++ {
				if reach[i][k] > 0 && reach[k][j] > 0 {
					v := reach[i][k]
					if reach[k][j] > v {
						v = reach[k][j]
					}
					if reach[i][j] < v {
						reach[i][j] = v
					}
				}
			}
		}
	}
	for i := 0; i < n; i++ {
		if reach[i][i] == 2 {
			return true
		}
	}
	return false
}

var reNumStates = regexp.MustCompile(`numStates\s*=\s*(\d+)`)

func readFile(name string) ([]byte, error) { return os.ReadFile(name) }

func numStates(o *UnitOut) int {
	b, err := os.ReadFile(filepath.Join(o.Dir, "parser", "parser.go"))
	if err != nil {
		return -1
	}
	m := reNumStates.FindSubmatch(b)
	if m == nil {
		return -1
	}
	n, _ := strconv.Atoi(string(m[1]))
	return n
}

var reLRErr = regexp.MustCompile(`line (\d+) col (\d+)`)

func init() {
	register(&Prop{
		ID: "C16", N: [2]int{200, 2500}, Batch: 120,
		Rule: "a case is a generated LR(1) grammar (of at most 260 canonical states; most have states that can be merged, many are not LALR(1); left, right and middle recursion, empty rules), for which a Knuth and a Pager parser are generated, with up to 110 inputs (exhaustive short strings, random derivations, their mutations and prefixes); an evaluation is one input parsed by both, compared with the membership fixpoint and with each other; non-trivial = at least one token is a viable prefix, distinct by (grammar, input)",
		Gen: func(r *Rand, i int) *Case {
			return lrCase(r, 110, 14, []int{700, 150, 150, 150, 150, 150}[i%6], func(w []int, ok bool, t string) *shared.Job { return &shared.Job{Op: "lr", Input: t} })
		},
		Expand: lrUnits,
		Valid:  lrValid,
		Judge: func(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
			return eachLR(c, os, st, func(k int, in string, w []int, ext [][2]int, cf *CFG, t *LRTable, which int, r *shared.Res) *Fail {
				acc := cf.InLang(w)
				v := 0
				if len(w) > 0 {
					v, _ = cf.Viable(w[:1])
				}
				st.Ev(gkey(c, in)+lrNames[which], v > 0)
				if len(w) > 200 {
					st.C("more than 200 tokens")
				}
				if r.LR.OK != acc {
					return failf(k, "input %q (%s): in the language: %v, accepted: %v (%s)", in, nameSeq(cf, w), acc, r.LR.OK, r.LR.Err)
				}
				if which == 1 && r.LR.Tree != os[0].Res[k].LR.Tree {
					return failf(k, "input %q: result %s, of the Knuth parser %s", in, r.LR.Tree, os[0].Res[k].LR.Tree)
				}
				if acc {
					st.C("accepted")
					sample(st, c, in, "accepted: "+r.LR.Tree)
				} else {
					st.C("rejected")
				}
				return nil
			})
		},
	})

	register(&Prop{
		ID: "C17", N: [2]int{200, 2500}, Batch: 120,
		Rule: "a case is a generated LR(1) grammar with a Knuth and a Pager parser whose action routines record their calls, and up to 40 sentences, a third of them with an action that returns an error; an evaluation compares the calls, their arguments and the result with the reference derivation; non-trivial = at least 3 actions, distinct by (grammar, input, failing action)",
		Gen: func(r *Rand, i int) *Case {
			n := 0
			return lrCase(r, 200, 14, 150, func(w []int, ok bool, t string) *shared.Job {
				if !ok || n > 40 {
					return nil
				}
				n++
				j := &shared.Job{Op: "lr", Input: t}
				if r.P(33) {
					j.N = r.Range(1, 3+len(w))
				}
				return j
			})
		},
		Expand: lrUnits,
		Valid:  lrValid,
		Judge: func(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
			return eachLR(c, os, st, func(k int, in string, w []int, ext [][2]int, cf *CFG, t *LRTable, which int, r *shared.Res) *Fail {
				run, top := t.Run(w, lrTok(cf, w, ext), t.lrResolve)
				if !run.OK {
					return nil
				}
				want := []string{}
				empty := false
				for _, a := range run.Acts {
					want = append(want, a.Term)
					empty = empty || len(a.Args) == 0
				}
				res := "G00(" + top + ")"
				want = append(want, res)
				fail := c.Jobs[k].N
				st.Ev(fmt.Sprint(gkey(c, in), which, fail), len(want) > 3)
				if fail > 0 && fail <= len(want) {
					st.C("failing action")
					prod := want[fail-1][:strings.Index(want[fail-1], "(")]
					if a, b := strings.Join(r.LR.Log, "\n"), strings.Join(want[:fail], "\n"); a != b {
						return failf(k, "input %q, action %d fails: actions called:\n%s\nwant:\n%s", in, fail, a, b)
					}
					if r.LR.OK || !strings.Contains(r.LR.Err, "injected-failure-"+prod) || r.LR.Tree != "" {
						return failf(k, "input %q, action %d (%s) fails: Parse returns %s, error %q", in, fail, prod, r.LR.Tree, r.LR.Err)
					}
					return nil
				}
				if empty {
					st.C("empty production")
				}
				if !r.LR.OK {
					return failf(k, "input %q is a sentence: %s", in, r.LR.Err)
				}
				if a, b := strings.Join(r.LR.Log, "\n"), strings.Join(want, "\n"); a != b {
					return failf(k, "input %q: actions called:\n%s\nwant:\n%s", in, a, b)
				}
				if r.LR.Tree != res {
					return failf(k, "input %q: result %s, want %s", in, r.LR.Tree, res)
				}
				sample(st, c, in, strings.Join(r.LR.Log, "; "))
				return nil
			})
		},
	})

	register(&Prop{
		ID: "C18", N: [2]int{240, 3000}, Batch: 120,
		Rule: "a case is a generated grammar, half of them not LR(1), given to gogll with -knuth and -pager, and with -resolve_conflicts if it is not LR(1), with up to 50 inputs; an evaluation compares gogll's verdict and the number of states with the canonical LR(1) automaton, or one parse of a parser with resolved conflicts with that automaton under the documented preference (Knuth) or with the language (Pager); non-trivial = the grammar has at least 12 canonical states, or the input has a viable token",
		Gen: func(r *Rand, i int) *Case {
			for {
				var g *Grammar
				if i%2 == 0 {
					g = lrSyn(r, SynOpts{LRBias: true, MaxNT: 5})
				} else {
					g = genSyn(r, SynOpts{})
				}
				cf := NewCFG(g)
				t := cf.NewLR(maxLRStates)
				if t == nil {
					continue
				}
				cs := &Case{G: g}
				if t.Conflict {
					cs.Kind = "conflict"
					if !cf.loops() {
						for _, w := range genInputs(r, cf, 50, 10) {
							cs.Jobs = append(cs.Jobs, &shared.Job{Op: "lr", Input: render(r, g, cf, w)})
						}
					}
				} else if i%2 == 1 && r.P(70) {
					continue
				}
				return cs
			}
		},
		Expand: func(c *Case) []*Unit {
			us := lrUnits(&Case{G: c.G})
			for _, u := range us {
				u.NoBuild = true
			}
			t := NewCFG(c.G).NewLR(maxLRStates)
			if t.Conflict {
				for _, u := range lrUnits(c) {
					u.Flags = append(u.Flags, "-resolve_conflicts")
					us = append(us, u)
				}
			}
			return us
		},
		Valid: func(c *Case) bool {
			if !synValid(c) {
				return false
			}
			cf := NewCFG(c.G)
			t := cf.NewLR(maxLRStates)
			return t != nil && (len(c.Jobs) == 0 || t.Conflict && !cf.loops())
		},
		Judge: judgeC18,
	})

	register(&Prop{
		ID: "C19", N: [2]int{200, 2500}, Batch: 120,
		Rule: "a case is a generated LR(1) grammar with a Knuth and a Pager parser and up to 80 inputs that are not sentences (mutations, prefixes and extensions of sentences, foreign characters); an evaluation compares the error and the tokens shifted with the Earley viable prefix; non-trivial = at least one token is a viable prefix, distinct by (grammar, input)",
		Gen: func(r *Rand, i int) *Case {
			n := 0
			return lrCase(r, 140, 14, 150, func(w []int, ok bool, t string) *shared.Job {
				if ok || n > 80 {
					return nil
				}
				n++
				return &shared.Job{Op: "lr", Input: t}
			})
		},
		Expand: lrUnits,
		Valid:  lrValid,
		Judge: func(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
			return eachLR(c, os, st, func(k int, in string, w []int, ext [][2]int, cf *CFG, t *LRTable, which int, r *shared.Res) *Fail {
				if cf.InLang(w) {
					return nil
				}
				v, exp := cf.Viable(w)
				st.Ev(gkey(c, in)+lrNames[which], v > 0)
				if r.LR.OK {
					return failf(k, "input %q is no sentence but was accepted", in)
				}
				at := len([]rune(in))
				name := "$"
				if v < len(w) {
					at = ext[v][0]
					name = cf.Name(w[v])
				}
				ln, col := lineCol([]rune(in), at)
				m := reLRErr.FindStringSubmatch(r.LR.Err)
				if m == nil || m[1] != strconv.Itoa(ln) || m[2] != strconv.Itoa(col) {
					return failf(k, "input %q: the first token that continues no sentence is %s at line %d col %d; error %q", in, name, ln, col, r.LR.Err)
				}
				if want := fmt.Sprintf(" tok %s (%d,", name, at); !strings.Contains(r.LR.Err, want) {
					return failf(k, "input %q: error %q does not name the token %q", in, r.LR.Err, want)
				}
				i := strings.Index(r.LR.Err, "expected one of: ")
				if i < 0 {
					return failf(k, "input %q: error %q names no expected tokens", in, r.LR.Err)
				}
				got := strings.Fields(r.LR.Err[i+len("expected one of: "):])
				if g, w := strings.Join(r.LR.ErrExp, " "), strings.Join(got, " "); g != w || r.LR.ErrAt != at {
					return failf(k, "input %q: Error() is at %d and expects %s; the error of Parse is %q", in, r.LR.ErrAt, g, r.LR.Err)
				}
				for _, x := range []string{fmt.Sprintf("type=%d,", r.LR.ErrT), fmt.Sprintf("lit=%s\n", r.LR.ErrLit), fmt.Sprintf("offset=%d,", at), fmt.Sprintf("line=%d,", ln), fmt.Sprintf("column=%d\n", col), strings.Join(got, " ")} {
					if !strings.Contains(r.LR.ErrStr, x) {
						return failf(k, "input %q: the text of Error() lacks %q: %q", in, x, r.LR.ErrStr)
					}
				}
				sort.Strings(got)
				want := setNames(cf, exp)
				sort.Strings(want)
				if which == 0 {
					if d := diffSets(got, want); d != "" {
						return failf(k, "input %q: expected tokens in %q: %s", in, r.LR.Err, d)
					}
				}
				for _, x := range got {
					if x == name {
						return failf(k, "input %q: the offending token is expected in %q", in, r.LR.Err)
					}
				}
				if len(got) == 0 {
					return failf(k, "input %q: error %q names no expected tokens", in, r.LR.Err)
				}
				// tokens in the actions' arguments: none at or beyond the error
				for _, l := range r.LR.Log {
					for _, p := range reAt.FindAllStringSubmatch(l, -1) {
						if x, _ := strconv.Atoi(p[1]); x >= at {
							return failf(k, "input %q: a token beyond the error at %d was shifted: %s", in, at, l)
						}
					}
				}
				st.C(fmt.Sprintf("error after %d tokens", min3(v, 5)))
				if v > 1 {
					sample(st, c, in, r.LR.Err)
				}
				return nil
			})
		},
	})
}

var reAt = regexp.MustCompile(`@(\d+)[ )]`)

func min3(a, b int) int {
	if a < b {
		return a
	}
	return b
}

var reStNo = regexp.MustCompile(`^S\d+ |(Shift)\(\d+\)`)

// stripStates removes the numbers of the states from a list of conflicts.
func stripStates(cs []string) (r []string) {
	for _, c := range cs {
		r = append(r, reStNo.ReplaceAllString(c, "$1"))
	}
	sort.Strings(r)
	return
}

func judgeC18(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
	cf := NewCFG(c.G)
	t := cf.NewLR(maxLRStates)
	st.C(t.lrKind())
	st.Ev(c.G.Text("p"), len(t.st) >= 12)
	for i := 0; i < 2; i++ {
		o := os[i]
		if o.Gogll.Panicked() {
			return failf(-1, "%s: gogll crashed or hung: %s", lrNames[i], clip(o.Gogll.Out, 1500))
		}
		if t.Conflict {
			if o.Gogll.Code == 0 {
				return failf(-1, "%s: the grammar is not LR(1) but gogll reports no conflict", lrNames[i])
			}
			if strings.Contains(o.Gogll.Out, "resolved") {
				return failf(-1, "%s: without -resolve_conflicts gogll says that conflicts were resolved: %s", lrNames[i], clip(o.Gogll.Out, 500))
			}
			if !strings.Contains(o.Gogll.Out, "onflict") {
				return failf(-1, "%s: the grammar is not LR(1), gogll exits %d without reporting conflicts: %s", lrNames[i], o.Gogll.Code, clip(o.Gogll.Out, 500))
			}
		} else if o.Gogll.Code != 0 {
			return failf(-1, "%s: the grammar is LR(1), gogll exits %d: %s", lrNames[i], o.Gogll.Code, clip(o.Gogll.Out, 500))
		}
	}
	if !t.Conflict {
		k, p := numStates(os[0]), numStates(os[1])
		if k > 0 && p > 0 && p > k {
			return failf(-1, "the Pager automaton has %d states, the Knuth automaton %d", p, k)
		}
		if p > 0 && p < k {
			st.C("fewer Pager states")
		}
		return nil
	}
	want := stripStates(t.conflicts())
	for i, o := range os {
		rep, err := readFile(filepath.Join(o.Dir, "LR1_conflicts.txt"))
		if err != nil {
			return failf(-1, "%s%s: the grammar is not LR(1), there is no report of the conflicts: %v", lrNames[i%2], []string{"", " -resolve_conflicts"}[i/2], err)
		}
		got, n := readConflicts(string(rep))
		if n != len(got) {
			return failf(-1, "%s%s: the report of conflicts states %d and lists %d: %s", lrNames[i%2], []string{"", " -resolve_conflicts"}[i/2], n, len(got), clip(string(rep), 1500))
		}
		if !strings.Contains(o.Gogll.Out, fmt.Sprintf("%d LR(1) conflicts", n)) {
			return failf(-1, "%s%s: %d conflicts, gogll says %s", lrNames[i%2], []string{"", " -resolve_conflicts"}[i/2], n, clip(o.Gogll.Out, 500))
		}
		if i%2 == 0 {
			if g, w := strings.Join(stripStates(got), "\n"), strings.Join(want, "\n"); g != w {
				return failf(-1, "%s%s: the report lists the conflicts\n%s\nthe canonical automaton has\n%s", lrNames[i%2], []string{"", " -resolve_conflicts"}[i/2], g, w)
			}
		}
	}
	for i := 0; i < 2; i++ {
		o := os[2+i]
		if f := unitFail(o); f != nil {
			f.Msg = lrNames[i] + " -resolve_conflicts: " + f.Msg
			return f
		}
		if !strings.Contains(o.Gogll.Out, "onflict") {
			return failf(-1, "%s -resolve_conflicts: conflicts are not mentioned: %s", lrNames[i], clip(o.Gogll.Out, 500))
		}
	}
	if len(c.Jobs) == 0 {
		return nil
	}
	sl := NewSynLex(c.G, cf)
	for k, j := range c.Jobs {
		in := string(j.InputRunes())
		w, ext := sl.Lex(in)
		v, _ := cf.Viable(w)
		acc := cf.InLang(w)
		run, top := t.Run(w, lrTok(cf, w, ext), t.lrResolve)
		for i := 0; i < 2; i++ {
			r := os[2+i].Res[k]
			if f := resFail(k, in, r); f != nil {
				f.Msg = lrNames[i] + " -resolve_conflicts: " + f.Msg
				return f
			}
			st.Ev(gkey(c, in)+lrNames[i], v > 0)
			if r.LR.OK && !acc {
				return failf(k, "%s -resolve_conflicts: input %q is no sentence but was accepted", lrNames[i], in)
			}
			if i == 0 && run.ErrAt >= 0 {
				if r.LR.OK != run.OK {
					return failf(k, "%s -resolve_conflicts: input %q: accepted %v, with shift before reduce and the earlier production %v (%s)", lrNames[i], in, r.LR.OK, run.OK, r.LR.Err)
				}
				if want := "G00(" + top + ")"; run.OK && r.LR.Tree != want {
					return failf(k, "%s -resolve_conflicts: input %q: result %s, with shift before reduce and the earlier production %s", lrNames[i], in, r.LR.Tree, want)
				}
			}
			if r.LR.OK {
				st.C("resolved, accepted")
				sample(st, c, in, r.LR.Tree)
			}
		}
	}
	return nil
}
