package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"

	"vh/shared"
)

/*** Reports of -v ***/

func fields(s string) string {
	f := strings.Fields(s)
	sort.Strings(f)
	return strings.Join(f, " ")
}

// checkFF compares the report of first and follow sets with the model.
func checkFF(cf *CFG, report string) string {
	got := map[string]string{}
	for _, l := range strings.Split(report, "\n") {
		i := strings.Index(l, ": ")
		if i < 0 {
			continue
		}
		k := l[:i]
		if _, ok := got[k]; ok {
			return fmt.Sprintf("%q is listed twice", k)
		}
		got[k] = fields(l[i+2:])
	}
	// a literal may look like the head of a line of a nonterminal
	lits := map[string]bool{}
	for i, t := range cf.Terms {
		if cf.IsLit[i] {
			lits[t] = true
		}
	}
	for n, nt := range cf.NTs {
		want := setNames(cf, cf.first[n])
		if cf.nullable[n] {
			want = append(want, "ϵ")
		}
		if g, ok := got[nt]; !ok && !lits[nt] {
			return fmt.Sprintf("no first set of %s", nt)
		} else if w := fields(strings.Join(want, " ")); g != w {
			return fmt.Sprintf("FIRST(%s) is {%s}, reported {%s}", nt, w, g)
		}
		k := "Follow(" + nt + ")"
		if g, ok := got[k]; !ok && !lits[k] {
			return fmt.Sprintf("no follow set of %s", nt)
		} else if w := fields(strings.Join(setNames(cf, cf.follow[n]), " ")); g != w {
			return fmt.Sprintf("FOLLOW(%s) is {%s}, reported {%s}", nt, w, g)
		}
	}
	return ""
}

func (c *CFG) itemStr(nt, alt, dot int) string {
	head := "G0"
	if nt >= 0 {
		head = c.NTs[nt]
	}
	b := c.lrBody(lrItem{nt: nt, alt: alt})
	s := ""
	for i, x := range b {
		if i > 0 {
			s += " "
		}
		if i == dot {
			s += "•"
		}
		s += c.Name(x)
	}
	if dot == len(b) {
		s += "•"
	}
	return strings.Join(strings.Fields(strings.ReplaceAll(head+" : "+s, "•", " • ")), " ")
}

var (
	reState = regexp.MustCompile(`^S(\d+) \{$`)
	reAct   = regexp.MustCompile(`^(\S+): (?:(accept)|Shift\((\d+)\)|Reduce\((\d+)\))$`)
	reTrans = regexp.MustCompile(`^(\S+) -> (\d+)$`)
)

// readLR reads the report of LR(1) states. ambiguous: a grammar with two equal
// productions.
func readLR(cf *CFG, report string) (t *LRTable, msg string) {
	items := map[string]lrItem{}
	prods := []lrItem{{nt: -1}}
	for nt, as := range cf.Prods {
		for a, b := range as {
			prods = append(prods, lrItem{nt: nt, alt: a})
			for d := 0; d <= len(b); d++ {
				items[cf.itemStr(nt, a, d)] = lrItem{nt: nt, alt: a, dot: d}
			}
		}
	}
	for d := 0; d <= 1; d++ {
		items[cf.itemStr(-1, 0, d)] = lrItem{nt: -1, dot: d}
	}
	terms := map[string]int{"$": TEOF}
	for i, n := range cf.Terms {
		terms[n] = i
	}
	nts := map[string]int{}
	for i, n := range cf.NTs {
		nts[n] = ntSym(i)
	}
	t = &LRTable{c: cf}
	part := ""
	for no, l := range strings.Split(report, "\n") {
		bad := func(f string, a ...interface{}) (*LRTable, string) {
			return nil, fmt.Sprintf("line %d %q of the report: ", no+1, l) + fmt.Sprintf(f, a...)
		}
		if m := reState.FindStringSubmatch(l); m != nil {
			if fmt.Sprint(len(t.st)) != m[1] {
				return bad("not state %d", len(t.st))
			}
			t.st = append(t.st, &lrState{map[lrItem]bool{}, map[int]int{}})
			t.act = append(t.act, map[int][]lrAct{})
			part = "items"
			continue
		}
		x := strings.TrimSpace(l)
		switch {
		case x == "":
			continue
		case l == "}" || l == "Transitions:" || l == "Actions:":
			part = l
			continue
		case len(t.st) == 0:
			return bad("before the first state")
		}
		s, act := t.st[len(t.st)-1], t.act[len(t.st)-1]
		switch part {
		case "items":
			found := false
			for k := strings.LastIndex(x, " {"); k >= 0 && !found; k = strings.LastIndex(x[:k], " {") {
				it, ok := items[strings.Join(strings.Fields(strings.ReplaceAll(x[:k], "•", " • ")), " ")]
				if !ok || !strings.HasSuffix(x, "}") {
					continue
				}
				found = true
				las := []int{}
				for _, c := range strings.Split(x[k+2:len(x)-1], ", ") {
					la, ok := terms[c]
					found = found && ok
					las = append(las, la)
				}
				if found {
					for _, it.la = range las {
						s.items[it] = true
					}
				}
			}
			if !found {
				return bad("not an item of the grammar with terminals")
			}
		case "Transitions:":
			m := reTrans.FindStringSubmatch(x)
			if m == nil {
				return bad("not a transition")
			}
			sym, ok := terms[m[1]]
			if n, isNT := nts[m[1]]; isNT {
				sym, ok = n, true
			}
			if _, dup := s.goTo[sym]; !ok || dup {
				return bad("not a symbol, or a second transition")
			}
			n := 0
			fmt.Sscan(m[2], &n)
			s.goTo[sym] = n
		case "Actions:":
			m := reAct.FindStringSubmatch(x)
			if m == nil {
				return bad("not an action")
			}
			tm, ok := terms[m[1]]
			if !ok || len(act[tm]) > 0 {
				return bad("not a terminal, or a second action")
			}
			a, n := lrAct{K: 'a'}, 0
			switch {
			case m[3] != "":
				fmt.Sscan(m[3], &n)
				a = lrAct{K: 's', N: n}
			case m[4] != "":
				fmt.Sscan(m[4], &n)
				if n <= 0 || n >= len(prods) {
					return bad("not a production")
				}
				a = lrAct{K: 'r', NT: prods[n].nt, Alt: prods[n].alt}
			}
			act[tm] = []lrAct{a}
		default:
			return bad("unexpected")
		}
	}
	if len(t.st) == 0 {
		return nil, "the report has no states"
	}
	return t, ""
}

// coherent checks that the states are an LR(1) automaton of the grammar with
// the documented resolution of conflicts. merged: contexts may be unions.
func (t *LRTable) coherent(merged bool) string {
	show := func(m map[lrItem]bool) string {
		ls := []string{}
		for it := range m {
			ls = append(ls, t.c.itemStr(it.nt, it.alt, it.dot)+" {"+t.c.Name(it.la)+"}")
		}
		sort.Strings(ls)
		return strings.Join(ls, "; ")
	}
	start := lrItem{nt: -1, la: TEOF}
	if !t.st[0].items[start] {
		return "state 0 lacks the start item"
	}
	for i, s := range t.st {
		ker := map[lrItem]bool{}
		for it := range s.items {
			if it.dot > 0 || it == start {
				ker[it] = true
			}
		}
		clo := map[lrItem]bool{}
		for it := range ker {
			clo[it] = true
		}
		t.c.lrClosure(clo)
		if itemsKey(clo) != itemsKey(s.items) {
			return fmt.Sprintf("state %d has the items %s\nthe closure of its kernel is %s", i, show(s.items), show(clo))
		}
		succ := map[int]map[lrItem]bool{}
		raw := map[int][]lrAct{}
		for it := range s.items {
			if b := t.c.lrBody(it); it.dot < len(b) {
				x := b[it.dot]
				if succ[x] == nil {
					succ[x] = map[lrItem]bool{}
				}
				succ[x][lrItem{it.nt, it.alt, it.dot + 1, it.la}] = true
			} else if it.nt < 0 {
				raw[it.la] = append(raw[it.la], lrAct{K: 'a'})
			} else {
				raw[it.la] = append(raw[it.la], lrAct{K: 'r', NT: it.nt, Alt: it.alt})
			}
		}
		for x, n := range s.goTo {
			if succ[x] == nil {
				return fmt.Sprintf("state %d: transition on %s without an item", i, t.c.Name(x))
			}
			if n < 0 || n >= len(t.st) {
				return fmt.Sprintf("state %d: transition to state %d", i, n)
			}
		}
		for x, want := range succ {
			n, ok := s.goTo[x]
			if !ok {
				return fmt.Sprintf("state %d: no transition on %s", i, t.c.Name(x))
			}
			if !isNT(x) {
				raw[x] = append(raw[x], lrAct{K: 's', N: n})
			}
			core := map[lrItem]bool{}
			for it := range want {
				if !t.st[n].items[it] {
					return fmt.Sprintf("state %d: the transition on %s leads to state %d which lacks %s", i, t.c.Name(x), n, show(map[lrItem]bool{it: true}))
				}
				it.la = 0
				core[it] = true
			}
			for it := range t.st[n].items {
				if it.dot == 0 {
					continue
				}
				extra := !want[it]
				if merged {
					y := it
					y.la = 0
					extra = !core[y]
				}
				if extra {
					return fmt.Sprintf("state %d: the transition on %s leads to state %d which has also %s", i, t.c.Name(x), n, show(map[lrItem]bool{it: true}))
				}
			}
		}
		for x, as := range raw {
			want := t.lrResolve(as)
			if g := t.act[i][x]; len(g) != 1 || g[0] != want {
				return fmt.Sprintf("state %d: the action on %s is %v, the items ask for %v", i, t.c.Name(x), g, want)
			}
		}
		for x := range t.act[i] {
			if len(raw[x]) == 0 {
				return fmt.Sprintf("state %d: an action on %s without an item", i, t.c.Name(x))
			}
		}
	}
	return ""
}

// conflicts lists the conflicts of the states as the report does.
func (t *LRTable) conflicts() (cs []string) {
	no := map[lrItem]int{}
	n := 1
	for nt, as := range t.c.Prods {
		for a := range as {
			no[lrItem{nt: nt, alt: a}] = n
			n++
		}
	}
	for i, s := range t.st {
		raw := map[int]map[string]bool{}
		add := func(x int, a string) {
			if raw[x] == nil {
				raw[x] = map[string]bool{}
			}
			raw[x][a] = true
		}
		for it := range s.items {
			switch b := t.c.lrBody(it); {
			case it.dot < len(b):
				if x := b[it.dot]; !isNT(x) {
					add(x, fmt.Sprintf("Shift(%d)", s.goTo[x]))
				}
			case it.nt < 0:
				add(it.la, "accept")
			default:
				add(it.la, fmt.Sprintf("Reduce(%d)", no[lrItem{nt: it.nt, alt: it.alt}]))
			}
		}
		for x, as := range raw {
			if len(as) > 1 {
				cs = append(cs, fmt.Sprintf("S%d %s %s", i, t.c.Name(x), strings.Join(sortedKeys(as), " ")))
			}
		}
	}
	return
}

var reConf = regexp.MustCompile(`^\s*\d+\) S(\d+): (\S+): \{ ?(.*)\}$`)

func readConflicts(report string) (cs []string, n int) {
	for _, l := range strings.Split(report, "\n") {
		if m := reConf.FindStringSubmatch(l); m != nil {
			as := strings.Split(m[3], ",")
			for i := range as {
				as[i] = strings.TrimSpace(as[i])
			}
			sort.Strings(as)
			cs = append(cs, fmt.Sprintf("S%s %s %s", m[1], m[2], strings.Join(as, " ")))
		} else {
			fmt.Sscanf(l, "%d LR(1) Conflicts:", &n)
		}
	}
	return
}

func c24Gen(r *Rand, i int) *Case {
	if i%4 != 0 {
		g := genWild(r)
		for len(g.Syn) == 0 {
			g = genWild(r)
		}
		for n := r.Intn(4); n > 0; n-- {
			mutateSyn(r, g)
		}
		return &Case{Kind: "first and follow", G: g, Flags: []string{"-v"}}
	}
	for {
		g := lrSyn(r, SynOpts{LRBias: true, MaxNT: 6})
		cf := NewCFG(g)
		t := cf.NewLR(2 * maxLRStates)
		if t == nil {
			continue
		}
		if t.Conflict && r.P(50) {
			continue
		}
		if k := t.lrKind(); k == "LR(1), no states to merge" && r.P(50) {
			continue
		}
		c := &Case{Kind: "states", G: g, Flags: []string{"-v", pick(r, "-knuth", "-pager"), "-resolve_conflicts"}}
		if i%8 == 0 && !(t.Conflict && cf.loops()) {
			for _, w := range genInputs(r, cf, 40, 12) {
				c.Jobs = append(c.Jobs, &shared.Job{Op: "lr", Input: render(r, g, cf, w)})
			}
		}
		return c
	}
}

func distinctAlts(g *Grammar) bool {
	for _, s := range g.Syn {
		seen := map[string]bool{}
		for _, a := range s.Alts {
			if seen[altKey(a)] {
				return false
			}
			seen[altKey(a)] = true
		}
	}
	return true
}

func judgeC24(e *Env, c *Case, os_ []*UnitOut, st *Stats) *Fail {
	o := os_[0]
	if o.Gogll.Panicked() {
		return failf(-1, "gogll crashed or hung: %s", clip(o.Gogll.Out, 1500))
	}
	if o.Gogll.Code != 0 {
		st.C("rejected")
		st.Ev(c.G.Text("p"), false)
		return nil
	}
	read := func(f string) (string, bool) {
		b, err := os.ReadFile(filepath.Join(o.Dir, f))
		return string(b), err == nil
	}
	cf := NewCFG(c.G)
	ff, ok := read("first_follow.txt")
	if !ok {
		return failf(-1, "-v writes no first_follow.txt")
	}
	if m := checkFF(cf, ff); m != "" {
		return failf(-1, "first_follow.txt: %s", m)
	}
	if c.Kind == "first and follow" {
		n, rec := 0, false
		for i := range cf.NTs {
			n += len(cf.first[i]) + len(cf.follow[i])
			rec = rec || cf.nullable[i]
		}
		st.Ev(c.G.Text("p"), n >= 8 && len(cf.NTs) > 1 && rec)
		if n >= 8 && len(st.Samples) < 2 {
			st.Samples = append(st.Samples, c.G.Text("p")+ff)
		}
		st.C("first and follow sets")
		return nil
	}
	merged := c.Flags[1] == "-pager"
	rep, ok := read("LR1_states.txt")
	if !ok {
		return failf(-1, "-v writes no LR1_states.txt")
	}
	t, m := readLR(cf, rep)
	if m == "" {
		m = t.coherent(merged)
	}
	if m != "" {
		return failf(-1, "LR1_states.txt of %s: %s", c.Flags[1], m)
	}
	conf, ok := read("LR1_conflicts.txt")
	want := t.conflicts()
	if ok != (len(want) > 0) {
		return failf(-1, "the states have %d conflicts; LR1_conflicts.txt exists: %v", len(want), ok)
	}
	if ok {
		got, n := readConflicts(conf)
		if d := diffSets(got, want); d != "" || n != len(want) {
			return failf(-1, "LR1_conflicts.txt states %d conflicts, the states have %d: %s", n, len(want), d)
		}
		st.C("states with conflicts")
	}
	st.C("states " + c.Flags[1])
	st.Ev(c.G.Text("p")+c.Flags[1], len(t.st) >= 10)
	if len(c.Jobs) == 0 {
		return nil
	}
	if f := unitFail(o); f != nil {
		return f
	}
	if n := numStates(o); n > 0 && n != len(t.st) {
		return failf(-1, "LR1_states.txt has %d states, the parser %d", len(t.st), n)
	}
	sl := NewSynLex(c.G, cf)
	for k, j := range c.Jobs {
		in := string(j.InputRunes())
		w, ext := sl.Lex(in)
		r := o.Res[k]
		if f := resFail(k, in, r); f != nil {
			return f
		}
		run, top := t.Run(w, lrTok(cf, w, ext), t.lrResolve)
		if run.ErrAt < 0 {
			continue
		}
		v, _ := cf.Viable(w)
		st.Ev(gkey(c, in)+c.Flags[1], v > 0)
		if run.OK != r.LR.OK {
			return failf(k, "input %q: the automaton of LR1_states.txt accepts: %v, the parser: %v (%s)", in, run.OK, r.LR.OK, r.LR.Err)
		}
		if run.OK {
			if x := "G00(" + top + ")"; r.LR.Tree != x {
				return failf(k, "input %q: the automaton of LR1_states.txt gives %s, the parser %s", in, x, r.LR.Tree)
			}
			st.C("run accepted")
			continue
		}
		log := []string{}
		for _, a := range run.Acts {
			log = append(log, a.Term)
		}
		if a, b := strings.Join(r.LR.Log, "\n"), strings.Join(log, "\n"); a != b {
			return failf(k, "input %q: the automaton of LR1_states.txt reduces\n%s\nthe parser\n%s", in, b, a)
		}
		i := strings.Index(r.LR.Err, "expected one of: ")
		exp := map[int]bool{}
		for _, x := range run.Exp {
			exp[x] = true
		}
		if i < 0 || fields(r.LR.Err[i+len("expected one of: "):]) != fields(strings.Join(setNames(cf, exp), " ")) {
			return failf(k, "input %q: the automaton of LR1_states.txt stops where it has actions on %v, the parser: %s", in, setNames(cf, exp), r.LR.Err)
		}
		st.C("run rejected")
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C24", N: [2]int{2000, 20000}, Batch: 150,
		Rule: "a case is a generated grammar, with unreachable and unproductive rules, whose report of first and follow sets is compared with the least solution of their equations; for a quarter of the cases the report of LR(1) states and conflicts (Knuth or Pager) is checked state by state against the grammar, and for an eighth its automaton is run on up to 40 inputs and compared with the generated parser; non-trivial = a nullable rule and at least 8 elements in the sets, or at least 10 states, or an input with a viable token",
		Gen:  c24Gen,
		Valid: func(c *Case) bool {
			if c.G == nil || len(c.G.Syn) == 0 || len(c.Flags) == 0 || c.Flags[0] != "-v" {
				return false
			}
			if c.Kind != "first and follow" && len(c.Flags) != 3 {
				return false
			}
			if c.Kind == "first and follow" {
				return true
			}
			return synValid(c) && distinctAlts(c.G)
		},
		Expand: func(c *Case) []*Unit {
			return []*Unit{{G: c.G, Flags: c.Flags, Jobs: c.Jobs, NoBuild: len(c.Jobs) == 0}}
		},
		Judge: judgeC24,
	})
}
