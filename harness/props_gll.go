package main

import (
	"fmt"
	"sort"
	"strings"

	"vh/shared"
)

// unitFail: gogll failed on, or generated uncompilable code for, a valid grammar.
func unitFail(o *UnitOut) *Fail {
	switch {
	case o.Gogll.Panicked():
		return failf(-1, "gogll crashed or hung on a valid grammar: code %d\n%s", o.Gogll.Code, clip(o.Gogll.Out, 1500))
	case o.Gogll.Code != 0:
		return failf(-1, "gogll rejected a valid grammar: code %d\n%s", o.Gogll.Code, clip(o.Gogll.Out, 1500))
	case o.BuildErr != "":
		return failf(-1, "the generated code does not compile:\n%s", o.BuildErr)
	case !o.Built:
		return failf(-1, "gogll exited 0 without generating a lexer\n%s", clip(o.Gogll.Out, 500))
	}
	return nil
}

func resFail(k int, in string, r *shared.Res) *Fail {
	if r == nil {
		die("no result for a job")
	}
	if r.Fatal != "" {
		return failf(k, "input %q: crash or no end: %s", in, r.Fatal)
	}
	if r.Panic != "" {
		return failf(k, "input %q: panic: %s", in, r.Panic)
	}
	return nil
}

// synCase generates a syntax case with one job per input.
func synCase(r *Rand, o SynOpts, n, maxLen int, job func(c *CFG, text string) *shared.Job) *Case {
	g := genSyn(r, o)
	c := NewCFG(g)
	for o.Long > 0 && !c.ll1() {
		g = genSyn(r, o)
		c = NewCFG(g)
	}
	cs := &Case{G: g, MD: r.P(30)}
	seen := map[string]bool{}
	long := 20
	if maxLen >= 12 {
		long = 120
	} else if maxLen == 10 { // many goroutines
		long = 12
	}
	if o.Long > 0 {
		long = o.Long
	}
	for _, w := range append(genInputs(r, c, n, maxLen), c.longInputs(r, long)...) {
		t := render(r, g, c, w)
		if seen[t] {
			continue
		}
		seen[t] = true
		if j := job(c, t); j != nil {
			cs.Jobs = append(cs.Jobs, j)
		}
	}
	return cs
}

func simpleJob(op, mode string) func(c *CFG, t string) *shared.Job {
	return func(c *CFG, t string) *shared.Job {
		return &shared.Job{Op: op, Input: t, Mode: mode, N: len(c.NTs)}
	}
}

func classifyCFG(st *Stats, c *CFG) {
	if c.cyclic() {
		st.C("grammar:cyclic")
	}
	for x := range c.NTs {
		if c.nullable[x] {
			st.C("grammar:nullable")
			break
		}
	}
	long := false
	for _, as := range c.Prods {
		for _, b := range as {
			long = long || len(b) > 2
		}
	}
	if long {
		st.C("grammar:body>2")
	}
	st.C(fmt.Sprintf("grammar:%dNT", len(c.NTs)))
}

func synValid(c *Case) bool {
	return c.G != nil && synOK(c.G) && lexOK(c.G)
}

// lexOK: token references defined before use, no empty bodies or alternates.
func lexOK(g *Grammar) bool {
	def := map[string]bool{}
	var ok func(re []*Lex) bool
	ok = func(re []*Lex) bool {
		if len(re) == 0 {
			return false
		}
		for _, l := range re {
			if l.K == LRef && !def[l.S] {
				return false
			}
			for _, a := range l.Alts {
				if !ok(a) {
					return false
				}
			}
			if !isLeaf(l) && l.K != LRef && len(l.Alts) == 0 {
				return false
			}
		}
		return true
	}
	for _, r := range g.Lex {
		if def[r.ID] || !ok(r.Re) {
			return false
		}
		def[r.ID] = true
	}
	return true
}

func nameSeq(c *CFG, w []int) string {
	ns := []string{}
	for _, t := range w {
		if t < TErr {
			ns = append(ns, "?")
		} else {
			ns = append(ns, c.Name(t))
		}
	}
	return strings.Join(ns, " ")
}

// eachJob runs f on every job's answer with the reference analysis.
func eachJob(c *Case, o *UnitOut, st *Stats, f func(k int, in string, w []int, ext [][2]int, cf *CFG, r *shared.Res) *Fail) *Fail {
	if fl := unitFail(o); fl != nil {
		return fl
	}
	cf := NewCFG(c.G)
	classifyCFG(st, cf)
	sl := NewSynLex(c.G, cf)
	for k, j := range c.Jobs {
		in := string(j.InputRunes())
		r := o.Res[k]
		if fl := resFail(k, in, r); fl != nil {
			return fl
		}
		w, ext := sl.Lex(in)
		if fl := f(k, in, w, ext, cf, r); fl != nil {
			return fl
		}
	}
	return nil
}

func sample(st *Stats, c *Case, in, what string) {
	if c.G == nil {
		return
	}
	if len(st.Samples) == 0 {
		st.Samples = append(st.Samples, fmt.Sprintf("%s\ninput %q: %s", c.G.Text("p"), in, what))
	}
}

func gkey(c *Case, in string) string { return c.G.Text("p") + "\x00" + strings.Join(c.Flags, " ") + in }

func init() {
	register(&Prop{
		ID: "C09", N: [2]int{320, 4000}, Batch: 120,
		Rule: "a case is a generated grammar (all NTs reachable and productive, distinct alternates; templates of ambiguous, left-, right- and hidden-left-recursive, nullable and cyclic shapes, mutated, or random) with up to 120 inputs (exhaustive short strings, random derivations, their mutations and prefixes); an evaluation is one Parse compared with a CFG membership fixpoint; non-trivial = at least one token is a viable prefix, distinct by (grammar, input)",
		Gen: func(r *Rand, i int) *Case {
			long := 0
			if i%8 == 0 {
				long = 1200
			}
			return synCase(r, SynOpts{Long: long}, 120, 12, simpleJob("rec", ""))
		},
		Valid: synValid,
		Judge: func(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
			return eachJob(c, os[0], st, func(k int, in string, w []int, ext [][2]int, cf *CFG, r *shared.Res) *Fail {
				acc := cf.InLang(w)
				st.Ev(gkey(c, in), len(w) > 0 && func() bool { n, _ := cf.Viable(w[:1]); return n > 0 }())
				if len(w) > 200 {
					st.C("more than 200 tokens")
				}
				if acc {
					st.C("accepted")
					sample(st, c, in, "accepted")
				} else {
					st.C("rejected")
				}
				if r.GLL.OK != acc || r.GLL.ErrsNil != acc {
					return failf(k, "input %q (%s): in the language: %v, parse succeeded: %v, error list nil: %v", in, nameSeq(cf, w), acc, r.GLL.OK, r.GLL.ErrsNil)
				}
				return nil
			})
		},
	})

	forestGen := func(mode string, n, maxLen int) func(r *Rand, i int) *Case {
		return func(r *Rand, i int) *Case {
			for {
				var sl *SynLex
				var cur *Grammar
				rejected := 0
				cs := synCase(r, SynOpts{}, 3*n, maxLen, func(c *CFG, t string) *shared.Job {
					_ = cur
					return &shared.Job{Op: "forest", Input: t, Mode: mode, N: len(c.NTs)}
				})
				cf := NewCFG(cs.G)
				sl = NewSynLex(cs.G, cf)
				jobs := []*shared.Job{}
				for _, j := range cs.Jobs {
					w, _ := sl.Lex(j.Input)
					sp := cf.NewSpans(w)
					if !sp.Accepts() {
						rejected++
						continue
					}
					if len(w) > 10 && strings.Contains(mode, "r") && sp.CountTrees(1000) >= 1000 {
						continue // the report would be too long
					}
					if len(jobs) < n {
						jobs = append(jobs, j)
					}
				}
				cs.Jobs = jobs
				if len(jobs) >= 2 {
					return cs
				}
			}
		}
	}
	forestEach := func(c *Case, o *UnitOut, st *Stats, f func(k int, in string, s *Spans, r *shared.Res) *Fail) *Fail {
		return eachJob(c, o, st, func(k int, in string, w []int, ext [][2]int, cf *CFG, r *shared.Res) *Fail {
			s := cf.NewSpans(w)
			if s.Accepts() != r.GLL.OK {
				return failf(k, "input %q (%s): in the language: %v, parse succeeded: %v", in, nameSeq(cf, w), s.Accepts(), r.GLL.OK)
			}
			if !r.GLL.OK {
				return nil
			}
			return f(k, in, s, r)
		})
	}

	register(&Prop{
		ID: "C10", N: [2]int{320, 4000}, Batch: 120,
		Rule: "a case is a generated grammar with up to 30 sentences; an evaluation compares the parse forest of one sentence (GetRoots, GetAll, Contain for every NT and extent, GetRightExtent, GetRoot, GetAllStrings for every prefix and extent, String of every element, Dump) with the forest computed from the derivability fixpoint; non-trivial = the forest has at least 2 subtrees, distinct by (grammar, input)",
		Gen:  forestGen("cd", 30, 9), Valid: synValid,
		Judge: func(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
			return forestEach(c, os[0], st, func(k int, in string, s *Spans, r *shared.Res) *Fail {
				g := r.GLL
				reach := s.ReachableEntries()
				st.Ev(gkey(c, in), len(reach) > 1)
				rk := map[string]bool{}
				contain := map[string]bool{}
				for e := range reach {
					rk[s.key(e)] = true
					contain[fmt.Sprintf("%s[%d,%d]", s.c.NTs[e.NT], e.L, e.R)] = true
				}
				all := s.AllEntries()
				if g.Right != len(s.w) {
					return failf(k, "input %q: GetRightExtent = %d, want %d", in, g.Right, len(s.w))
				}
				roots := []string{}
				for _, e := range s.Roots() {
					roots = append(roots, s.key(e))
				}
				if d := diffSets(g.Roots, roots); d != "" {
					return failf(k, "input %q: GetRoots: %s", in, d)
				}
				if (len(roots) == 1) != (g.Root1P == "") || len(roots) == 1 && g.Root1 != roots[0] {
					return failf(k, "input %q: GetRoot = %q panic %q, roots %q", in, g.Root1, g.Root1P, roots)
				}
				seen := map[string]bool{}
				for _, b := range g.All {
					if seen[b] {
						return failf(k, "input %q: GetAll repeats %s", in, b)
					}
					seen[b] = true
					if !all[b] {
						return failf(k, "input %q: GetAll has %s, which is not derivable", in, b)
					}
				}
				for _, b := range sortedKeys(rk) {
					if !seen[b] {
						return failf(k, "input %q: GetAll lacks %s, part of a derivation", in, b)
					}
				}
				cseen := map[string]bool{}
				for _, x := range g.Contain {
					cseen[x] = true
					var ok bool
					for nt, name := range s.c.NTs {
						var a, b int
						if strings.HasPrefix(x, name+"[") {
							if n, _ := fmt.Sscanf(x[len(name):], "[%d,%d]", &a, &b); n == 2 && s.has(ntSym(nt), a, b) {
								ok = true
							}
						}
					}
					if !ok {
						return failf(k, "input %q: Contain(%s) but it is not derivable", in, x)
					}
				}
				for _, x := range sortedKeys(contain) {
					if !cseen[x] {
						return failf(k, "input %q: Contain(%s) is false, but it is part of a derivation", in, x)
					}
				}
				if len(roots) > 1 {
					st.C("several roots")
				}
				if m := judgeDump(c, in, s, g, reach); m != "" {
					return failf(k, "input %q: %s", in, m)
				}
				sample(st, c, in, fmt.Sprint(g.All))
				return nil
			})
		},
	})

	register(&Prop{
		ID: "C11", N: [2]int{320, 4000}, Batch: 120,
		Rule: "a case is a generated grammar with up to 40 sentences; an evaluation compares IsAmbiguous and ReportAmbiguous on one sentence with a brute-force count of derivation trees; non-trivial = the input has a token, distinct by (grammar, input); classes count ambiguous and unambiguous inputs",
		Gen:  forestGen("ar", 40, 9), Valid: synValid,
		Judge: func(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
			return forestEach(c, os[0], st, func(k int, in string, s *Spans, r *shared.Res) *Fail {
				g := r.GLL
				amb := s.CountTrees(2) >= 2
				if amb != s.Ambiguous() {
					die("reference models disagree on ambiguity: %s %q", c.G.Text("p"), in)
				}
				st.Ev(gkey(c, in), len(s.w) > 0)
				st.C(map[bool]string{true: "ambiguous", false: "unambiguous"}[amb])
				if !g.AmbDone || g.Amb != amb {
					return failf(k, "input %q: ambiguous: %v, IsAmbiguous: %v", in, amb, g.Amb)
				}
				rep := strings.Contains(g.Report, "ambigous roots") || strings.Contains(g.Report, "Ambigous: in")
				if rep != amb {
					return failf(k, "input %q: ambiguous: %v, but ReportAmbiguous printed:\n%s", in, amb, clip(g.Report, 1000))
				}
				// per root: "No ambiguous BSRs" iff nothing below it is ambiguous
				if nested := nestedAmb(s); nested != strings.Contains(g.Report, "Ambigous: in") {
					return failf(k, "input %q: a subtree below the roots is ambiguous: %v, but ReportAmbiguous printed:\n%s", in, nested, clip(g.Report, 1000))
				}
				if !amb && !strings.Contains(g.Report, "No ambiguous BSRs") {
					return failf(k, "input %q: not ambiguous, but ReportAmbiguous printed:\n%s", in, clip(g.Report, 1000))
				}
				if len(s.Roots()) == 1 && amb && strings.Contains(g.Report, "No ambiguous BSRs") {
					return failf(k, "input %q: ambiguous below its only root, but ReportAmbiguous printed:\n%s", in, clip(g.Report, 1000))
				}
				sample(st, c, in, fmt.Sprintf("ambiguous=%v", amb))
				return nil
			})
		},
	})

	register(&Prop{
		ID: "C12", N: [2]int{320, 4000}, Batch: 120,
		Rule: "a case is a generated grammar with up to 120 inputs; an evaluation checks the error list of one rejected input against Earley viable prefixes; non-trivial = rejected after at least one viable token or at end of input, distinct by (grammar, input)",
		Gen: func(r *Rand, i int) *Case {
			return synCase(r, SynOpts{}, 120, 12, simpleJob("err", ""))
		},
		Valid: synValid,
		Judge: func(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
			return eachJob(c, os[0], st, func(k int, in string, w []int, ext [][2]int, cf *CFG, r *shared.Res) *Fail {
				acc := cf.InLang(w)
				if acc {
					if !r.GLL.OK || !r.GLL.ErrsNil {
						return failf(k, "input %q is in the language but has errors", in)
					}
					return nil
				}
				vp, exp := cf.Viable(w)
				st.Ev(gkey(c, in), vp > 0)
				if vp == len(w) {
					st.C("error at end of input")
				} else {
					st.C("error inside")
				}
				return judgeErrs(k, in, w, ext, cf, vp, exp, r, st, c)
			})
		},
	})

	register(&Prop{
		ID: "C13", N: [2]int{320, 4000}, Batch: 120,
		Rule: "a case is a generated grammar with up to 30 sentences; an evaluation compares ToSPPF of one sentence, as the set of labelled nodes and edges reachable from its root, with the binarised SPPF computed from the derivability fixpoint; non-trivial = at least 6 edges, distinct by (grammar, input)",
		Gen:  forestGen("sg", 30, 9), Valid: synValid,
		Judge: func(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
			return forestEach(c, os[0], st, func(k int, in string, s *Spans, r *shared.Res) *Fail {
				want := s.SPPF()
				st.Ev(gkey(c, in), len(want) >= 6)
				if d := diffSets(r.GLL.SPPF, want); d != "" {
					return failf(k, "input %q: SPPF: %s", in, d)
				}
				if len(r.GLL.Dot) > 0 {
					return failf(k, "input %q: dot file: %s", in, strings.Join(r.GLL.Dot, "; "))
				}
				for _, x := range want {
					if strings.HasPrefix(x, "edge I") {
						st.C("with intermediate nodes")
						break
					}
				}
				sample(st, c, in, fmt.Sprint(want))
				return nil
			})
		},
	})

	register(&Prop{
		ID: "C14", N: [2]int{320, 4000}, Batch: 120,
		Rule: "a case is a generated grammar with up to 30 sentences; an evaluation walks the forest of one sentence from its roots through every child accessor, before and after ToSPPF, and compares each answer with the reference forest; non-trivial = some node has at least 2 symbols, distinct by (grammar, input)",
		Gen:  forestGen("np", 30, 9), Valid: synValid,
		Judge: func(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
			return forestEach(c, os[0], st, func(k int, in string, s *Spans, r *shared.Res) *Fail {
				nt := false
				for _, n := range r.GLL.Nodes {
					nt = nt || len(n.Syms) > 1
				}
				st.Ev(gkey(c, in), nt)
				if m := judgeNodes(s, r.GLL.Nodes, st); m != "" {
					return failf(k, "input %q: %s", in, m)
				}
				if m := judgeNodes(s, r.GLL.Post, st); m != "" {
					return failf(k, "input %q: after ToSPPF: %s", in, m)
				}
				sample(st, c, in, fmt.Sprintf("%d nodes", len(r.GLL.Nodes)))
				return nil
			})
		},
	})

	register(&Prop{
		ID: "C15", N: [2]int{60, 600}, Batch: 60, Race: true,
		Rule: "a case is a generated grammar (three of four GLL, one LR(1)) with 24 inputs, parsed one after another and then by 24*6 goroutines at once under the race detector; an evaluation is one input: its forest, children, ambiguity and errors must be the same in all runs; non-trivial = the input has at least 2 tokens",
		Gen: func(r *Rand, i int) *Case {
			cs := synCase(r, SynOpts{}, 24, 10, simpleJob("rec", ""))
			if i%4 == 3 {
				cs = lrCase(r, 24, 10, 150, func(w []int, ok bool, t string) *shared.Job { return &shared.Job{Input: t} })
				cs.Flags = []string{pick(r, "-knuth", "-pager")}
			}
			j := &shared.Job{Op: "conc", N: 6}
			for _, x := range cs.Jobs {
				j.Ins = append(j.Ins, x.Input)
			}
			cs.Jobs = []*shared.Job{j}
			return cs
		},
		Valid: func(c *Case) bool {
			return synValid(c) && (len(c.Flags) == 0 || lrValid(c))
		},
		Judge: func(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
			if f := unitFail(os[0]); f != nil {
				return f
			}
			cf := NewCFG(c.G)
			sl := NewSynLex(c.G, cf)
			classifyCFG(st, cf)
			st.C(fmt.Sprint("parser: ", c.Flags))
			for k, j := range c.Jobs {
				if f := resFail(k, fmt.Sprint(j.Ins), os[0].Res[k]); f != nil {
					return f
				}
				for _, in := range j.Ins {
					w, _ := sl.Lex(in)
					st.Ev(gkey(c, in), len(w) > 1)
				}
				for i, s := range os[0].Res[k].Strs {
					if strings.HasPrefix(s, "DIFF") {
						return failf(k, "inputs %q: %s", j.Ins, clip(s, 3000))
					}
					if i < len(j.Ins) {
						w, _ := sl.Lex(j.Ins[i])
						if acc := cf.InLang(w); acc != strings.Contains(s, "OK ") {
							return failf(k, "input %q (%d-th parse in the process): in the language %v: %s", j.Ins[i], i, acc, clip(s, 500))
						}
					}
				}
				sample(st, c, j.Ins[0], clip(os[0].Res[k].Strs[0], 300))
			}
			return nil
		},
	})
}

// judgeDump checks the printed forest and the string elements.
func judgeDump(c *Case, in string, s *Spans, g *shared.GLL, reach map[Entry]bool) string {
	_, ext := NewSynLex(c.G, s.c).Lex(in)
	rs := []rune(in)
	text := func(l, r int) string {
		if l == r {
			return "ℇ"
		}
		return string(rs[ext[l][0]:ext[r-1][1]])
	}
	var l, p, r int
	for i, all := range [][]string{g.All, g.Roots} {
		want := []string{}
		for _, k := range all {
			fmt.Sscanf(k[strings.LastIndex(k, "["):], "[%d,%d,%d]", &l, &p, &r)
			want = append(want, fmt.Sprintf("%s,%d,%d,%d - %s", k[:strings.Index(k, "/")], l, p, r, text(l, r)))
		}
		got := []string{}
		for _, t := range [][]string{g.Texts, g.RootTs}[i] {
			// <head> : <body>∙,l,p,r - text
			h, rest, ok := strings.Cut(t, " : ")
			if n := strings.LastIndex(rest, "∙,"); ok && n >= 0 {
				t = h + rest[n+len("∙"):]
			} else if n := strings.Index(rest, "∙"); ok && n >= 0 {
				t = h + strings.TrimLeft(rest[n+len("∙"):], " ")
			}
			got = append(got, t)
		}
		got, want = sortedCopy(got), sortedCopy(want)
		if strings.Join(got, "\x00") != strings.Join(want, "\x00") {
			return fmt.Sprintf("the elements' texts are %q, not %q", got, want)
		}
	}
	// Dump lists the roots and all elements
	lines := func(ts []string) []string {
		return sortedCopy(strings.Split(strings.Join(ts, "\n"), "\n"))
	}
	i, j, k := strings.Index(g.Dump, "Roots:\n"), strings.Index(g.Dump, "\nNT BSRs:\n"), strings.LastIndex(g.Dump, "\nstring BSRs:\n")
	if i != 0 || j < 0 || k < j {
		return "Dump printed:\n" + clip(g.Dump, 1000)
	}
	sec := func(s string) []string { return lines([]string{strings.TrimSuffix(s, "\n")}) }
	if a, b := sec(g.Dump[len("Roots:\n"):j]), lines(g.RootTs); strings.Join(a, "\n") != strings.Join(b, "\n") {
		return fmt.Sprintf("Dump lists the roots %q, not %q", a, b)
	}
	if a, b := sec(g.Dump[j+len("\nNT BSRs:\n"):k]), lines(g.Texts); strings.Join(a, "\n") != strings.Join(b, "\n") {
		return fmt.Sprintf("Dump lists the elements %q, not %q", a, b)
	}
	// string elements
	sound := map[string]bool{}
	need := map[string]bool{}
	n := len(s.w)
	name := func(b []int, l, p, r int) string { return fmt.Sprintf("%s [%d,%d,%d]", s.c.bodyStr(b), l, p, r) }
	for _, alts := range s.c.Prods {
		for _, b := range alts {
			for q := 2; q < len(b); q++ {
				for l := 0; l <= n; l++ {
					for r := l; r <= n; r++ {
						for _, p := range s.pivots(b[:q], l, r) {
							sound[name(b[:q], l, p, r)] = true
						}
					}
				}
			}
		}
	}
	for e := range reach {
		b := s.c.Prods[e.NT][e.Alt]
		ends := map[int]bool{e.P: true}
		for q := len(b) - 1; q >= 2; q-- {
			ends1 := map[int]bool{}
			for r := range ends {
				for _, p := range s.pivots(b[:q], e.L, r) {
					need[name(b[:q], e.L, p, r)] = true
					ends1[p] = true
				}
			}
			ends = ends1
		}
	}
	got := map[string]bool{}
	for i, x := range g.Strs {
		fmt.Sscanf(x[strings.LastIndex(x, "["):], "[%d,%d,%d]", &l, &p, &r)
		if t := g.StrTs[i]; !strings.HasSuffix(t, fmt.Sprintf(",%d,%d,%d - %s", l, p, r, text(l, r))) {
			return fmt.Sprintf("the text of %s is %q, not ...,%d,%d,%d - %s", x, t, l, p, r, text(l, r))
		} else if !strings.Contains(g.Dump[k:], t) {
			return fmt.Sprintf("Dump lacks the string element %q", t)
		}
		if got[x] {
			return "GetAllStrings repeats " + x
		}
		got[x] = true
		if !sound[x] {
			return "GetAllStrings has " + x + ", which is not derivable"
		}
	}
	for _, x := range sortedKeys(need) {
		if !got[x] {
			return "GetAllStrings lacks " + x + ", part of a derivation"
		}
	}
	return ""
}

func nestedAmb(s *Spans) bool {
	for e := range s.ReachableEntries() {
		for i, sym := range s.c.Prods[e.NT][e.Alt] {
			if isNT(sym) && len(s.kids(e, i)) != 1 {
				return true
			}
		}
	}
	return false
}

func judgeNodes(s *Spans, nodes []shared.BSRNode, st *Stats) string {
	reach := map[string]Entry{}
	for e := range s.ReachableEntries() {
		reach[s.key(e)] = e
	}
	got := map[string]bool{}
	for _, n := range nodes {
		got[n.Key] = true
		e, ok := reach[n.Key]
		if !ok {
			return fmt.Sprintf("walking the children reaches %s, which is no part of a derivation", n.Key)
		}
		body := s.c.Prods[e.NT][e.Alt]
		if len(n.Syms) != len(body) {
			return fmt.Sprintf("%s has symbols %q", n.Key, n.Syms)
		}
		for i, sym := range body {
			if n.Syms[i] != s.c.Name(sym) {
				return fmt.Sprintf("%s has symbols %q, want %s at %d", n.Key, n.Syms, s.c.Name(sym), i)
			}
		}
		for i, sym := range body {
			k := n.Kids[i]
			if isNT(sym) {
				want := []string{}
				for _, x := range s.kids(e, i) {
					want = append(want, s.key(x))
				}
				if k.Panic != "" {
					return fmt.Sprintf("%s child %d: %s", n.Key, i, k.Panic)
				}
				for _, acc := range []struct {
					name string
					v    []string
				}{{"GetNTChildrenI", k.Kids}, {"GetNTChildren", k.Occ}, {"GetAllNTChildren", k.All}} {
					if d := diffSets(acc.v, want); d != "" {
						return fmt.Sprintf("%s child %d (%s): %s: %s", n.Key, i, s.c.Name(sym), acc.name, d)
					}
				}
				if len(want) == 1 && (k.One != want[0] || k.OneO != want[0]) {
					return fmt.Sprintf("%s child %d: GetNTChildI %q, GetNTChild %q, want %s", n.Key, i, k.One, k.OneO, want[0])
				}
				if len(want) > 1 && k.MultiNoPanic {
					return fmt.Sprintf("%s child %d is ambiguous but GetNTChildI or GetNTChild returned one", n.Key, i)
				}
				continue
			}
			sp := s.childSpans(e, i)
			if len(sp) == 1 {
				if k.Panic != "" {
					return fmt.Sprintf("%s child %d (terminal %s at token %d): %s", n.Key, i, s.c.Name(sym), sp[0][0], k.Panic)
				}
				if k.TokI != sp[0][0] {
					return fmt.Sprintf("%s child %d (terminal %s): token %d, want %d", n.Key, i, s.c.Name(sym), k.TokI, sp[0][0])
				}
				st.C("terminal children")
			} else {
				st.C("terminal children with several positions")
				if k.Panic == "" {
					ok := false
					for _, x := range sp {
						ok = ok || x[0] == k.TokI
					}
					if !ok {
						return fmt.Sprintf("%s child %d (terminal %s): token %d, none of its positions %v", n.Key, i, s.c.Name(sym), k.TokI, sp)
					}
				}
			}
		}
	}
	for _, x := range sortedKeys(reach) {
		if !got[x] {
			return fmt.Sprintf("walking the children does not reach %s", x)
		}
	}
	return ""
}

func judgeErrs(k int, in string, w []int, ext [][2]int, cf *CFG, vp int, exp map[int]bool, r *shared.Res, st *Stats, c *Case) *Fail {
	g := r.GLL
	if g.OK || g.ErrsNil || len(g.Errs) == 0 {
		return failf(k, "input %q (%s) is not in the language: returned forest: %v, errors: %d", in, nameSeq(cf, w), g.OK, len(g.Errs))
	}
	at := func(i int) int { // rune position of token i
		if i < len(ext) {
			return ext[i][0]
		}
		return len([]rune(in))
	}
	prev := 1 << 30
	nTok := len(w)
	best := map[string]bool{}
	for n, pe := range g.Errs {
		if pe.TokI < 0 || pe.TokI > nTok {
			return failf(k, "input %q: error %d is at no token of the input: %+v", in, n, pe)
		}
		if pe.TokI > prev {
			return failf(k, "input %q: errors are not sorted by descending position: %d after %d", in, pe.TokI, prev)
		}
		prev = pe.TokI
		if pe.TokI < nTok && pe.Tok.L != at(pe.TokI) {
			return failf(k, "input %q: error %d: token at %d, want %d", in, n, pe.Tok.L, at(pe.TokI))
		}
		if pe.TokI < nTok || true {
			ln, col := lineCol([]rune(in), pe.Tok.L)
			if pe.Ln != ln || pe.Col != col {
				return failf(k, "input %q: error %d at rune %d says line %d column %d, want %d %d", in, n, pe.Tok.L, pe.Ln, pe.Col, ln, col)
			}
		}
		if len(pe.Exp) == 0 {
			return failf(k, "input %q: error %d (%s) expects nothing", in, n, pe.Slot)
		}
		for i, x := range pe.Exp {
			if x == pe.Tok.T {
				return failf(k, "input %q: error %d (%s): found token %q is in the expected set %q", in, n, pe.Slot, x, pe.Exp)
			}
			_ = i
			if pe.TokI == vp {
				best[x] = true
			}
		}
		for _, x := range pe.Exp {
			if !strings.Contains(pe.Str, x) {
				return failf(k, "input %q: error %d: message lacks the expected token %q: %s", in, n, x, pe.Str)
			}
		}
	}
	if g.Errs[0].TokI != vp {
		return failf(k, "input %q (%s): the longest viable prefix has %d tokens, but the first error is at token %d (%s)", in, nameSeq(cf, w), vp, g.Errs[0].TokI, g.Errs[0].Slot)
	}
	// soundness: an expected terminal can begin a suffix of a rule of the
	// error's nonterminal or follow that nonterminal in some sentence
	for n, pe := range g.Errs {
		head := strings.TrimSpace(strings.SplitN(pe.Slot, ":", 2)[0])
		ok := map[string]bool{}
		known := false
		// the slot: names of the symbols, the dot before one of them or at the end
		body, dot := strings.Fields(pe.Slot), -1
		if len(body) >= 2 {
			body = body[2:]
		}
		for i, n := range body {
			if strings.HasPrefix(n, "∙") {
				if dot = i; n == "∙" {
					body = body[:i]
				} else {
					body[i] = strings.TrimPrefix(n, "∙")
				}
				break
			}
		}
		for x, name := range cf.NTs {
			if name != head {
				continue
			}
			for t := range cf.follow[x] {
				ok[cf.termID(t)] = true
			}
			for _, b := range cf.Prods[x] {
				names := []string{}
				for _, s := range b {
					if isNT(s) {
						names = append(names, cf.NTs[ntOf(s)])
					} else {
						names = append(names, cf.termID(s))
					}
				}
				here := dot >= 0 && strings.Join(names, " ") == strings.Join(body, " ")
				known = known || here
				if !here && dot != 0 { // at 0 it stands for all alternates
					continue
				}
				f, _ := cf.FirstOf(b[dot:])
				for t := range f {
					ok[cf.termID(t)] = true
				}
			}
		}
		if !known {
			return failf(k, "input %q (%s): error %d names %q, which is no slot of the grammar", in, nameSeq(cf, w), n, pe.Slot)
		}
		for _, x := range pe.Exp {
			if !ok[x] {
				return failf(k, "input %q (%s): error %d at token %d in %q expects %q, which can come next there in no sentence", in, nameSeq(cf, w), n, pe.TokI, pe.Slot, x)
			}
		}
	}
	// completeness, where the found token starts nothing in the grammar
	if vp < len(w) && w[vp] <= TErr {
		st.C("foreign token: expected set complete")
		for t := range exp {
			if !best[cf.termID(t)] {
				return failf(k, "input %q (%s): at token %d %q may come next, but the errors there expect only %q", in, nameSeq(cf, w), vp, cf.Name(t), sortedKeys(best))
			}
		}
	}
	if vp > 0 {
		sample(st, c, in, g.Errs[0].Str)
	}
	return nil
}

// termID is the token type ID of a terminal.
func (c *CFG) termID(t int) string {
	switch t {
	case TEOF:
		return "$"
	case TErr:
		return "Error"
	}
	return c.Terms[t]
}

// lineCol is the reference for line and column: 1-based, columns in runes,
// a tab counting four columns.
func lineCol(in []rune, p int) (ln, col int) {
	ln, col = 1, 1
	for i := 0; i < p && i < len(in); i++ {
		if in[i] == '\n' {
			ln++
			col = 1
		} else if in[i] == '\t' {
			col += 4
		} else {
			col++
		}
	}
	return
}

func dedupe(s []string) []string {
	sort.Strings(s)
	o := []string{}
	for i, x := range s {
		if i == 0 || x != s[i-1] {
			o = append(o, x)
		}
	}
	return o
}
