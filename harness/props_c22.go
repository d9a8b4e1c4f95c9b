package main

import (
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"strings"
	"sync/atomic"

	"vh/shared"
)

var scratchNo int64

// scratch returns a new directory under the work directory.
func (e *Env) scratch() string {
	d := filepath.Join(e.Work, fmt.Sprintf("s%d", atomic.AddInt64(&scratchNo, 1)))
	if err := os.MkdirAll(d, 0o755); err != nil {
		die("mkdir: %v", err)
	}
	return d
}

// lrReports are the reports that a run for an LR(1) parser replaces or removes.
var lrReports = []string{"basic_productions.txt", "CFG_items.txt", "CFG_symbols.txt", "first.txt", "LR1_states.txt", "LR1_conflicts.txt"}

// ownTxt are the reports of -v.
var ownTxt = regexp.MustCompile(`^[A-Za-z0-9_]+\.txt$`)

// userFiles are files of the user next to generated ones.
var userFiles = []string{"user.go", "notes.md", "lexer/helper.go", "parser/extra_test.go", "ast/types.go", "token/readme", "src/lib.rs", "parser/bsr/x.txt", "Makefile", "other.bnf", "ast/ast.go.bak", "parser/slot/slot.go.orig"}

// c22Text is a grammar file of the case.
func c22Text(r *Rand, i int) string {
	g := genWild(r)
	if i%3 == 1 { // a large grammar
		for k := 0; k < 3; k++ {
			h := genWild(r)
			sfx := fmt.Sprintf("_%d", k)
			h.rename(func(s string) string { return s + sfx }, func(s string) string { return s + sfx }, func(s string) string { return s })
			g.Lex = append(g.Lex, h.Lex...)
			if len(g.Syn) == 0 {
				g.Syn = h.Syn
			} else if len(h.Syn) > 0 {
				g.Syn = append(g.Syn, h.Syn...)
				g.Syn[0].Alts = append(g.Syn[0].Alts, []Sym{{KNT, h.Syn[0].NT}})
			}
			g.Order = nil
		}
	}
	return layout(r, g.fileToks(r), false)
}

func c22Gen(r *Rand, i int) *Case {
	c := &Case{Kind: "history"}
	n := r.Range(1, 3)
	for k := 0; k < n; k++ {
		t, ext := strings.ReplaceAll(c22Text(r, i), "{{PKG}}", "p/q"), "bnf"
		switch {
		case r.P(12):
			t = mutateText(r, t)
		case r.P(15) && !strings.Contains(t, "`"):
			t, ext = mdWrap(r, []string{t}), "md"
		}
		c.Args = append(c.Args, ext+":"+t)
	}
	lr := r.P(60)
	for n := r.Range(2, 7); n > 0; n-- {
		j := &shared.Job{Op: "run", G: r.Intn(len(c.Args)), N: r.Intn(5)}
		switch k := r.Intn(100); {
		case k < 72:
			if lr && r.P(75) {
				j.Ins = append(j.Ins, pick(r, "-knuth", "-pager"))
				if r.P(70) {
					j.Ins = append(j.Ins, "-resolve_conflicts")
				}
			}
			if r.P(30) {
				j.Ins = append(j.Ins, "-v")
			}
			if r.P(20) {
				j.Ins = append(j.Ins, "-a")
			}
		case k < 82:
			j.Op, j.Path, j.Input = "write", pick(r, userFiles...), fmt.Sprintf("user text %d\n", r.Intn(1000))
		case k < 94:
			j.Op, j.Path, j.Input = "write", "ast/ast.go", fmt.Sprintf("// edited %d\npackage ast\n", r.Intn(1000))
		default:
			j.Op, j.N = "remove", r.Intn(1000)
		}
		c.Jobs = append(c.Jobs, j)
	}
	return c
}

// gen runs gogll in a fresh directory.
func (e *Env) gen(name, text string, flags []string) (RunOut, map[string]string) {
	d := e.scratch()
	defer os.RemoveAll(d)
	writeFile(filepath.Join(d, name), text)
	o := e.RunGogll(d, append(append([]string{}, flags...), name)...)
	t := ReadTree(d)
	if t[name] != text {
		t["\x00source"] = "changed"
	}
	delete(t, name)
	return o, t
}

func diffFiles(got, want map[string]string) string {
	for _, k := range sortedKeys(want) {
		g, ok := got[k]
		if !ok {
			return fmt.Sprintf("file %s is missing", k)
		}
		if g != want[k] {
			return fmt.Sprintf("file %s differs: %s", k, firstDiff(g, want[k]))
		}
	}
	for _, k := range sortedKeys(got) {
		if _, ok := want[k]; !ok {
			return fmt.Sprintf("unexpected file %s", k)
		}
	}
	return ""
}

func firstDiff(a, b string) string {
	as, bs := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := 0; i < len(as) || i < len(bs); i++ {
		x, y := "<end>", "<end>"
		if i < len(as) {
			x = as[i]
		}
		if i < len(bs) {
			y = bs[i]
		}
		if x != y {
			return fmt.Sprintf("line %d is %q, want %q", i+1, clip(x, 200), clip(y, 200))
		}
	}
	return ""
}

func judgeC22(e *Env, c *Case, st *Stats) *Fail {
	type fresh struct {
		o RunOut
		t map[string]string
	}
	names, texts := []string{}, []string{}
	for i, a := range c.Args {
		p := strings.Index(a, ":")
		names = append(names, fmt.Sprintf("g%d.%s", i, a[:p]))
		texts = append(texts, a[p+1:])
	}
	cache := map[string]*fresh{}
	ref := func(g int, flags []string) (*fresh, *Fail) {
		key := fmt.Sprint(g, flags)
		if f := cache[key]; f != nil {
			return f, nil
		}
		o, t := e.gen(names[g], texts[g], flags)
		if o.Panicked() {
			return nil, failf(-1, "gogll %v %s crashed or hung:\n%s", flags, names[g], clip(o.Out, 1500))
		}
		if t["\x00source"] != "" {
			return nil, failf(-1, "gogll %v %s changed its source file", flags, names[g])
		}
		for n := 0; n < 2; n++ {
			o1, t1 := e.gen(names[g], texts[g], flags)
			if o1.Code != o.Code {
				return nil, failf(-1, "gogll %v %s exits %d and then %d", flags, names[g], o.Code, o1.Code)
			}
			if d := diffFiles(t1, t); d != "" {
				return nil, failf(-1, "two runs of gogll %v %s in fresh directories: %s", flags, names[g], d)
			}
			if o1.Out != o.Out {
				return nil, failf(-1, "two runs of gogll %v %s print different messages: %s", flags, names[g], firstDiff(o1.Out, o.Out))
			}
		}
		cache[key] = &fresh{o, t}
		st.CN("fresh runs", 3)
		return cache[key], nil
	}
	root := e.scratch()
	defer os.RemoveAll(root)
	out, src, cwd := filepath.Join(root, "out", "deep"), filepath.Join(root, "src"), filepath.Join(root, "cwd")
	for _, d := range []string{src, cwd} {
		os.MkdirAll(d, 0o755)
	}
	model := map[string]string{} // tree under root
	put := func(rel, text string) {
		writeFile(filepath.Join(root, rel), text)
		model[rel] = text
	}
	for g := range names {
		put("src/"+names[g], texts[g])
	}
	put("cwd/keep", "k")
	hist := ""
	runs, nontriv := 0, false
	for k, j := range c.Jobs {
		switch j.Op {
		case "write":
			if j.Path == "ast/ast.go" {
				if _, ok := model["out/deep/ast/ast.go"]; !ok {
					continue
				}
				nontriv = true
			}
			put("out/deep/"+j.Path, j.Input)
			hist += fmt.Sprintf("write %s; ", j.Path)
			continue
		case "remove":
			fs := []string{}
			for _, f := range sortedKeys(model) {
				if strings.HasPrefix(f, "out/deep/") && !strings.HasSuffix(f, ".bnf") && !strings.HasSuffix(f, ".md") {
					fs = append(fs, f)
				}
			}
			if len(fs) > 0 {
				f := fs[j.N%len(fs)]
				os.Remove(filepath.Join(root, f))
				delete(model, f)
				hist += fmt.Sprintf("remove %s; ", f)
			}
			continue
		}
		g := j.G % len(names)
		var o RunOut
		fl := append([]string{}, j.Ins...)
		dir, where := "", ""
		switch j.N {
		case 0: // in the directory of the source
			put("out/deep/"+names[g], texts[g])
			dir, fl, where = out, append(fl, names[g]), "in the output directory"
		case 1: // -o relative
			dir, fl, where = cwd, append(fl, "-o", "../out/deep", "../src/"+names[g]), "with -o ../out/deep"
		case 2: // -o absolute
			dir, fl, where = cwd, append(fl, "-o", out, filepath.Join(src, names[g])), "with absolute -o"
		case 3: // from the parent
			put("out/deep/"+names[g], texts[g])
			dir, fl, where = root, append(fl, "out/deep/"+names[g]), "from the parent directory"
		case 4:
			dir, fl, where = src, append(fl, "-o", "../out/deep/", "./"+names[g]), "with -o ../out/deep/"
		}
		o = e.RunGogll(dir, fl...)
		runs++
		hist += fmt.Sprintf("gogll %s; ", strings.ReplaceAll(strings.Join(fl, " "), root, ""))
		f, fail := ref(g, j.Ins)
		if fail != nil {
			return fail
		}
		bad := func(s string, a ...interface{}) *Fail {
			return failf(k, "history: %s\nrun %s: %s", hist, where, fmt.Sprintf(s, a...))
		}
		if o.Code != f.o.Code {
			return bad("exit %d, in a fresh directory %d\n%s", o.Code, f.o.Code, clip(o.Out, 1500))
		}
		if x := strings.ReplaceAll(o.Out, fl[len(fl)-1]+":", names[g]+":"); x != f.o.Out {
			return bad("prints other messages than in a fresh directory: %s", firstDiff(x, f.o.Out))
		}
		got := ReadTree(root)
		all := hasFlag(j.Ins, "-a")
		if _, own := f.t["parser/actiontable.go"]; own {
			for _, r := range lrReports {
				if _, ok := f.t[r]; !ok {
					delete(model, "out/deep/"+r)
				}
			}
		} else {
			for _, r := range lrReports {
				// a run that fails, or makes no LR(1) parser, may remove old reports or not
				if _, ok := got["out/deep/"+r]; !ok {
					delete(model, "out/deep/"+r)
				}
			}
		}
		for p, t := range f.t {
			rel := "out/deep/" + p
			if _, ok := model[rel]; ok && p == "ast/ast.go" && !all {
				nontriv = true
				st.C("kept ast.go")
				continue
			}
			if old, ok := model[rel]; ok && old != t {
				nontriv = true
				st.C("replaced file")
			}
			model[rel] = t
		}
		if d := diffFiles(got, model); d != "" {
			return bad("%s", d)
		}
		// -v adds reports only
		if hasFlag(j.Ins, "-v") {
			st.C("verbose")
			fl := []string{}
			for _, x := range j.Ins {
				if x != "-v" {
					fl = append(fl, x)
				}
			}
			q, fail := ref(g, fl)
			if fail != nil {
				return fail
			}
			more := map[string]string{}
			for p, t := range f.t {
				if _, ok := q.t[p]; ok || !ownTxt.MatchString(p) {
					more[p] = t
				}
			}
			if d := diffFiles(more, q.t); d != "" || q.o.Code != f.o.Code {
				return bad("with -v, compared to the run without: %s (exit %d, %d)", d, f.o.Code, q.o.Code)
			}
		}
	}
	st.CN("runs", runs)
	st.C(fmt.Sprintf("grammars %d", len(names)))
	for _, f := range cache {
		st.C(fmt.Sprintf("exit %d", f.o.Code))
	}
	st.Ev(hist+strings.Join(texts, "\x00"), nontriv || runs >= 3)
	if nontriv && len(st.Samples) < 1 {
		st.Samples = append(st.Samples, hist+"\n"+clip(texts[0], 600))
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C22", N: [2]int{400, 6000}, Batch: 200, NoShrinkGrammar: true,
		Rule:   "a case is a history of 2 to 7 steps in one output directory: runs of gogll on up to three generated grammars (some not well formed) with random options, as source directory or with -o in several forms, edits of ast/ast.go, new files of the user, and removed files; every run with the same grammar and options is repeated three times in fresh directories, whose files and messages must agree, and after each run the whole directory tree must be what a model of the files predicts; an evaluation is one history; non-trivial = it has at least 3 runs, or a run over an existing different file",
		Assume: []string{"Only the tree of the scratch directory (output, source and current directories) is watched for other files.", "The legacy report names that LR(1) generation removes (basic_productions.txt, CFG_items.txt, CFG_symbols.txt, first.txt) count as generated files."},
		Gen:    c22Gen,
		Direct: judgeC22,
	})
}
