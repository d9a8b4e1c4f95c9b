package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strconv"
	"strings"
)

// fsaState is a state of the report of lexer sets.
type fsaState struct {
	accept []string
	on     []RuneSet
	labels []string
	to     []int
}

func unescLabel(s string) (out []rune, ok bool) {
	rs := []rune(s)
	for i := 0; i < len(rs); i++ {
		if rs[i] != '\\' {
			out = append(out, rs[i])
			continue
		}
		if i++; i == len(rs) {
			return nil, false
		}
		switch rs[i] {
		case 'n':
			out = append(out, '\n')
		case 'r':
			out = append(out, '\r')
		case 't':
			out = append(out, '\t')
		case '\\', '\'', '"':
			out = append(out, rs[i])
		default:
			return nil, false
		}
	}
	return out, true
}

// readLabel reads the label of a transition.
func readLabel(s string) (RuneSet, bool) {
	mid := func(pre, post string) (string, bool) {
		if strings.HasPrefix(s, pre) && strings.HasSuffix(s, post) && len(s) >= len(pre)+len(post) {
			return s[len(pre) : len(s)-len(post)], true
		}
		return "", false
	}
	switch s {
	case ".":
		return leafSet(&Lex{K: LAny}), true
	case "letter", "number", "upcase", "lowcase":
		return leafSet(&Lex{K: LClass, S: s}), true
	}
	if m, ok := mid("any \"", "\""); ok {
		if rs, ok := unescLabel(m); ok {
			return leafSet(&Lex{K: LAnyOf, S: string(rs)}), true
		}
		return nil, false
	}
	if m, ok := mid("not \"", "\""); ok {
		if rs, ok := unescLabel(m); ok {
			return leafSet(&Lex{K: LNot, S: string(rs)}), true
		}
		return nil, false
	}
	if m, ok := mid("'[", "]'"); ok && m != "" {
		l := &Lex{K: LUSet}
		for _, p := range strings.Split(m, ",") {
			u := USpec{}
			p = strings.TrimSpace(p)
			if strings.HasPrefix(p, "-") {
				u.Excl, p = true, p[1:]
			}
			if !strings.HasPrefix(p, `\p{`) || !strings.HasSuffix(p, "}") {
				return nil, false
			}
			u.Name = p[3 : len(p)-1]
			found := false
			for _, v := range append(append([]USpec{}, uniCatNames...), uniPropNames...) {
				if v.Name == u.Name {
					u.Prop, found = v.Prop, true
				}
			}
			if !found {
				return nil, false
			}
			l.U = append(l.U, u)
		}
		return leafSet(l), true
	}
	if m, ok := mid("'", "'"); ok {
		if len([]rune(m)) == 1 {
			return leafSet(&Lex{K: LChar, S: m}), true
		}
		if rs, ok := unescLabel(m); ok && len(rs) == 1 {
			return leafSet(&Lex{K: LChar, S: string(rs)}), true
		}
	}
	return nil, false
}

var (
	reFSAState = regexp.MustCompile(`^S(\d+):$`)
	reFSATrans = regexp.MustCompile(`^    (.*) -> S(\d+)$`)
)

func readFSA(rep string) (sts []*fsaState, msg string) {
	trans := false
	rules := map[string]string{}
	for _, l := range strings.Split(rep, "\n") {
		if m := reFSAState.FindStringSubmatch(l); m != nil {
			if m[1] != fmt.Sprint(len(sts)) {
				return nil, fmt.Sprintf("state S%s is listed as number %d", m[1], len(sts))
			}
			sts = append(sts, &fsaState{})
			trans = false
			continue
		}
		if l == "" {
			continue
		}
		if len(sts) == 0 {
			return nil, fmt.Sprintf("line %q before the first state", l)
		}
		s := sts[len(sts)-1]
		switch {
		case l == "  Transitions:":
			trans = true
		case trans:
			m := reFSATrans.FindStringSubmatch(l)
			if m == nil {
				return nil, fmt.Sprintf("cannot read the transition %q", l)
			}
			set, ok := readLabel(m[1])
			if !ok {
				return nil, fmt.Sprintf("cannot read the label of the transition %q", l)
			}
			n, _ := strconv.Atoi(m[2])
			s.on, s.labels, s.to = append(s.on, set), append(s.labels, m[1]), append(s.to, n)
		default:
			if !strings.HasPrefix(l, "    ") {
				continue
			}
			i := strings.Index(l[4:], " : ")
			if i < 0 || strings.Count(l, "•") != 1 {
				return nil, fmt.Sprintf("%q is not an item with one position", l)
			}
			id, rule := l[4:4+i], strings.Replace(l[4+i:], "•", "", 1)
			if r, ok := rules[id]; ok && r != rule {
				return nil, fmt.Sprintf("%s has items of %q and of %q", id, r, rule)
			}
			rules[id] = rule
			if strings.HasSuffix(l, "•") {
				s.accept = append(s.accept, id)
			}
		}
	}
	reach, n := map[int]bool{0: true}, 0
	for len(reach) > n {
		n = len(reach)
		for k, s := range sts {
			for _, t := range s.to {
				if reach[k] {
					reach[t] = true
				}
			}
		}
	}
	for k, s := range sts {
		if !reach[k] {
			return nil, fmt.Sprintf("S%d cannot be reached", k)
		}
		for i, t := range s.to {
			if t >= len(sts) {
				return nil, fmt.Sprintf("S%d goes to S%d with %s, which is not listed", k, t, s.labels[i])
			}
		}
	}
	return
}

// checkFSA compares the automaton with the reference, state by state.
func checkFSA(sts []*fsaState, d *DFA) string {
	if len(sts) == 0 {
		return "no states"
	}
	type pair struct{ s, q int }
	path := map[pair]string{{0, 0}: ""}
	for work := []pair{{0, 0}}; len(work) > 0; {
		p := work[0]
		work = work[1:]
		s := sts[p.s]
		ids := []string{}
		for _, x := range d.n.accepts(d.States[p.q]) {
			ids = append(ids, d.n.Terms[x].ID)
		}
		got := append([]string{}, s.accept...)
		sort.Strings(ids)
		sort.Strings(got)
		if strings.Join(ids, " ") != strings.Join(got, " ") {
			return fmt.Sprintf("after %q: S%d has complete items of %q, but the text is a lexeme of %q", path[p], p.s, got, ids)
		}
		size := make([]int, len(s.on))
		for i, on := range s.on {
			for _, as := range d.Atoms {
				if len(as) > 0 && on(as[0]) {
					size[i]++
				}
			}
		}
		for a, rs := range d.Atoms {
			for k, c := range rs {
				if k > 3 {
					break
				}
				best := -1
				for i, on := range s.on {
					if on(c) && (best < 0 || size[i] < size[best]) {
						best = i
					}
				}
				q := d.Trans[p.q][a]
				if (q < 0) != (best < 0) {
					if best < 0 {
						return fmt.Sprintf("after %q: S%d has no transition for %q", path[p], p.s, c)
					}
					return fmt.Sprintf("after %q: S%d has the transition %s for %q, which continues no lexeme", path[p], p.s, s.labels[best], c)
				}
				if q < 0 {
					continue
				}
				np := pair{s.to[best], q}
				if _, ok := path[np]; !ok {
					path[np] = path[p] + string(c)
					work = append(work, np)
				}
			}
		}
	}
	return ""
}

func lines(s string) (ls []string) {
	for _, l := range strings.Split(s, "\n") {
		if l != "" {
			ls = append(ls, strings.Join(strings.Fields(l), " "))
		}
	}
	sort.Strings(ls)
	return
}

func diffLines(got, want []string) string {
	n := map[string]int{}
	for _, l := range got {
		n[l]++
	}
	for _, l := range want {
		n[l]--
	}
	for _, l := range sortedKeys(n) {
		if n[l] > 0 {
			return fmt.Sprintf("lists %q too often", l)
		}
		if n[l] < 0 {
			return fmt.Sprintf("does not list %q", l)
		}
	}
	return ""
}

func c28Gen(r *Rand, i int) *Case {
	for {
		var g *Grammar
		if i%3 == 0 {
			g = genWild(r)
		} else {
			g, _ = genLex(r, LexOpts{Refs: true, Laminar: true, Supp: true, Lits: r.P(70), Uni: i%3 == 1})
			if r.P(30) {
				addKeywords(r, g)
			}
		}
		if c28Valid(g) {
			return &Case{G: g, Flags: []string{"-v"}, MD: r.P(20)}
		}
	}
}

// c28Valid: names of one line in the reports.
func c28Valid(g *Grammar) bool {
	ok := true
	odd := func(s string) {
		if strings.ContainsAny(s, "\n\r•∙\u2028\u2029\u0085\v\f") {
			ok = false
		}
	}
	for _, l := range g.Lex {
		eachLeaf(l.Re, func(x *Lex) { odd(x.S) })
	}
	for _, l := range g.Lits() {
		odd(l)
	}
	return ok
}

func judgeC28(e *Env, c *Case, os_ []*UnitOut, st *Stats) *Fail {
	o := os_[0]
	if o.Gogll.Panicked() {
		return failf(-1, "gogll crashed or hung: %s", clip(o.Gogll.Out, 1500))
	}
	if o.Gogll.Code != 0 {
		st.C("rejected")
		st.Ev(c.G.Text("p"), false)
		return nil
	}
	read := func(f string) string {
		b, err := os.ReadFile(filepath.Join(o.Dir, f))
		if err != nil {
			return "\x00"
		}
		return string(b)
	}
	sym, slots, fsa := read("symbols.txt"), read("grammar_slots.txt"), read("lexfsa.txt")
	for f, t := range map[string]string{"symbols.txt": sym, "grammar_slots.txt": slots, "lexfsa.txt": fsa} {
		if t == "\x00" {
			return failf(-1, "-v writes no %s", f)
		}
	}
	want := map[string]bool{}
	for _, t := range c.G.LTerms() {
		want[t.ID] = true
	}
	for _, s := range c.G.Syn {
		want[s.NT] = true
	}
	if m := diffLines(lines(sym), sortedKeys(want)); m != "" {
		return failf(-1, "symbols.txt %s", m)
	}
	items := []string{}
	cf := &CFG{}
	if len(c.G.Syn) > 0 {
		cf = NewCFG(c.G)
	}
	for nt, as := range cf.Prods {
		for _, b := range as {
			for dot := 0; dot <= len(b); dot++ {
				w := cf.NTs[nt] + " :"
				for i, s := range b {
					w += " "
					if i == dot {
						w += "∙"
					}
					w += cf.Name(s)
				}
				if dot == len(b) {
					w += " ∙"
				}
				items = append(items, w)
			}
		}
	}
	if m := diffLines(lines(slots), items); m != "" {
		return failf(-1, "grammar_slots.txt %s", m)
	}
	sts, m := readFSA(fsa)
	if m != "" {
		return failf(-1, "lexfsa.txt: %s", m)
	}
	d := NewDFA(c.G, NewRand(1), 400)
	if !d.Full || !d.Laminar {
		st.C("automaton not compared")
		st.Ev(c.G.Text("p"), false)
		return nil
	}
	if m := checkFSA(sts, d); m != "" {
		return failf(-1, "lexfsa.txt: %s", m)
	}
	st.C("reports compared")
	st.Ev(c.G.Text("p"), len(d.States) >= 6)
	if len(d.States) >= 6 && len(st.Samples) < 1 {
		st.Samples = append(st.Samples, clip(c.G.Text("p")+fsa, 900))
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C28", N: [2]int{2000, 40000}, Batch: 300,
		Rule:   "a case is a generated grammar (tokens of every kind, laminar classes, literals, suppressed tokens; a third of them use every odd name and character of the notation), whose reports of -v of symbols, grammar slots and lexer sets are read back: names and slots against the grammar, the lexer sets state by state (product of automata, every class of characters) against the reference automaton of the token definitions; non-trivial = at least 6 states",
		Assume: []string{"Grammars with line breaks or the dots of items in literals are left out, because the reports could not be read back."},
		Gen:    c28Gen,
		Valid: func(c *Case) bool {
			return c.G != nil && len(c.G.Lex)+len(c.G.Syn) > 0 && lexOK(c.G) && c28Valid(c.G) && hasFlag(c.Flags, "-v")
		},
		Expand: func(c *Case) []*Unit {
			return []*Unit{{G: c.G, Flags: c.Flags, MD: c.MD, NoBuild: true}}
		},
		Judge: judgeC28,
	})
}
