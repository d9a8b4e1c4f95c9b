package main

import (
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
)

/*** gogll built from what it generates from its own grammar ***/

type selfBuild struct {
	once sync.Once
	bin  string // the second gogll
	fail *Fail
	docs map[string]string // grammar files of the repository
	list []string
}

var self selfBuild

func (s *selfBuild) get(e *Env) *selfBuild {
	s.once.Do(func() {
		s.readDocs(e.Repo)
		d := e.scratch()
		if out, err := exec.Command("sh", "-c", `cd "$1" && tar cf - --exclude=./.git . | tar xf - -C "$2"`, "sh", e.Repo, d).CombinedOutput(); err != nil {
			die("copy of the repository: %v\n%s", err, out)
		}
		o := e.RunGogll(d, "-o", ".", "gogll.md")
		if o.Panicked() || o.Code != 0 {
			s.fail = failf(-1, "gogll -o . gogll.md in a copy of the repository exits %d:\n%s", o.Code, clip(o.Out, 2000))
			return
		}
		s.bin = filepath.Join(e.Work, "gogll2")
		if out, err := e.goCmd(d, 600, nil, "build", "-o", s.bin, "."); err != nil {
			s.fail = failf(-1, "gogll does not compile with the packages generated from gogll.md: %v\n%s", err, clip(string(out), 2000))
		}
		os.RemoveAll(d)
	})
	return s
}

func (s *selfBuild) readDocs(repo string) {
	s.docs = map[string]string{}
	filepath.Walk(repo, func(p string, info os.FileInfo, err error) error {
		if err == nil && !info.IsDir() && (strings.HasSuffix(p, ".md") || strings.HasSuffix(p, ".bnf")) && info.Size() < 50000 {
			if b, err := os.ReadFile(p); err == nil && strings.Contains(string(b), "package") {
				rel, _ := filepath.Rel(repo, p)
				s.docs[rel] = string(b)
			}
		}
		return nil
	})
	s.list = sortedKeys(s.docs)
}

// runIn runs a gogll on a text in a fresh directory.
func (e *Env) runIn(bin, name, text string, flags []string) (RunOut, map[string]string) {
	f := &Env{Work: e.Work, Gogll: bin, Fast: e.Fast}
	return f.gen(name, text, flags)
}

func judgeC25(e *Env, c *Case, st *Stats) *Fail {
	s := self.get(e)
	if s.fail != nil {
		return s.fail
	}
	text := strings.ReplaceAll(c.fileText(), "{{PKG}}", "p/q")
	name := "g.bnf"
	if c.MD {
		name = "g.md"
	}
	a, at := e.gen(name, text, c.Flags)
	b, bt := e.runIn(s.bin, name, text, c.Flags)
	if a.Panicked() != b.Panicked() {
		return failf(-1, "gogll and the gogll generated from gogll.md, of which one crashed:\n%s\n--- and\n%s", clip(a.Out, 1500), clip(b.Out, 1500))
	}
	if a.Code != b.Code {
		return failf(-1, "gogll exits %d, the gogll generated from gogll.md %d:\n%s\n--- and\n%s", a.Code, b.Code, clip(a.Out, 1000), clip(b.Out, 1000))
	}
	if a.Panicked() {
		st.C("both crashed")
		return nil
	}
	if a.Out != b.Out {
		return failf(-1, "gogll and the gogll generated from gogll.md print different messages: %s", firstDiff(a.Out, b.Out))
	}
	if d := diffFiles(bt, at); d != "" {
		return failf(-1, "gogll and the gogll generated from gogll.md (want: gogll): %s", d)
	}
	class := "accepted"
	switch {
	case strings.Contains(a.Out, "Parse Error"):
		class = "parse error"
	case strings.Contains(a.Out, "AST Error"):
		class = "AST error"
	case strings.Contains(a.Out, "Semantic Error"):
		class = "semantic error"
	case a.Code != 0:
		class = "other error"
	}
	st.C(class)
	st.C(c.Kind)
	st.Ev(name+text+strings.Join(c.Flags, " "), a.Code == 0 || class != "other error")
	if class == "parse error" && len(st.Samples) < 2 {
		st.Samples = append(st.Samples, clip(text, 500)+"\n=> "+clip(a.Out, 500))
	}
	return nil
}

func c25Gen(r *Rand, i int) *Case {
	repo := os.Getenv("VH_REPO")
	if repo == "" {
		repo = "/repo"
	}
	docsOnce.Do(func() { docs.readDocs(repo) })
	n := len(docs.list)
	switch {
	case i < n:
		return &Case{Kind: "file of the repository", Text: docs.docs[docs.list[i]], MD: strings.HasSuffix(docs.list[i], ".md")}
	case r.P(20):
		f := pick(r, docs.list...)
		t := docs.docs[f]
		for n := r.Range(1, 4); n > 0; n-- {
			t = mutateText(r, t)
		}
		return &Case{Kind: "mutated file of the repository", Text: t, MD: strings.HasSuffix(f, ".md")}
	}
	c := wildCase(r, i, false)
	c.G = nil
	if c.Text != "" && r.P(25) {
		c.Text = mutateText(r, c.Text)
	}
	return c
}

var (
	docs     selfBuild
	docsOnce sync.Once
)

func init() {
	register(&Prop{
		ID: "C25", N: [2]int{4000, 60000}, Batch: 400, NoShrinkGrammar: true,
		Rule:   "a case is a grammar file: those of the repository, mutations of them, and generated files, valid or broken at the level of tokens, scopes, characters or bytes; an evaluation runs gogll and a gogll whose lexer, parser and token packages were generated by it from gogll.md, and compares exit status, messages and every file written; non-trivial = gogll accepts the file or reports an error of the grammar, distinct by text and options",
		Assume: []string{"The second gogll is generated in a copy of the working tree with the command of the makefile."},
		Gen:    c25Gen,
		Direct: judgeC25,
	})
}
