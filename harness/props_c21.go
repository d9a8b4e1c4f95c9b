package main

import (
	"fmt"
	goparser "go/parser"
	gotoken "go/token"
	"strings"

	"vh/shared"
)

func init() {
	register(&Prop{
		ID: "C21", N: [2]int{900, 12000}, Batch: 150, NoShrinkGrammar: true,
		Rule:   "a case is one grammar file within the notation and scope rules, with names, literals, character classes, rule shapes and numbers of alternates that are awkward for Go code, and a set of options (GLL, Knuth, Pager, conflicts resolved or not, verbose); an evaluation is one generation whose Go files must all parse, compile together with a program that uses them, and load; non-trivial = gogll exited 0 and the grammar has a name, literal or character outside [A-Za-z0-9_] or at least 12 alternates or tokens",
		Assume: []string{"The Go compiler of the sandbox (go build) decides whether code compiles."},
		Gen:    func(r *Rand, i int) *Case { return wildCase(r, i, true) },
		Expand: func(c *Case) []*Unit {
			return []*Unit{{Text: c.fileText(), MD: c.MD, Flags: c.Flags, RealAST: true, Jobs: []*shared.Job{{Op: "meta"}}}}
		},
		Valid: func(c *Case) bool {
			t := c.fileText()
			if c.MD {
				t = blank(t)
			}
			g := ReadGogll(t)
			return g.SynErr < 0 && len(g.Errs) == 0 && g.Pkg == "{{PKG}}"
		},
		Judge: func(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
			o := os[0]
			text := strings.ReplaceAll(c.fileText(), "{{PKG}}", o.Pkg)
			if o.Gogll.Panicked() || o.Gogll.Timeout {
				return failf(-1, "gogll crashed or hung: code %d\n%s", o.Gogll.Code, clip(o.Gogll.Out, 1500))
			}
			if o.Gogll.Code != 0 {
				st.C("rejected")
				st.Ev(strings.Join(c.Flags, " ")+"\x00"+text, false)
				return nil
			}
			if o.BuildErr != "" {
				return failf(-1, "gogll exited 0, but the generated code does not compile:\n%s", o.BuildErr)
			}
			if !o.Built {
				return failf(-1, "gogll exited 0 without generating a lexer\n%s", clip(o.Gogll.Out, 500))
			}
			n := 0
			for f, b := range ReadTree(o.Dir) {
				if !strings.HasSuffix(f, ".go") || strings.HasPrefix(f, "adp/") {
					continue
				}
				n++
				if _, err := goparser.ParseFile(gotoken.NewFileSet(), f, b, goparser.ParseComments); err != nil {
					return failf(-1, "generated %s is not Go source: %v", f, err)
				}
			}
			if f := resFail(0, "", o.Res[0]); f != nil {
				return f
			}
			t := text
			if c.MD {
				t = blank(t)
			}
			g := ReadGogll(t)
			odd, alts := 0, len(g.G.Lex)
			for _, t := range g.Toks {
				for _, r := range strings.Trim(t.S, "'\"") {
					if !(r == '_' || r >= '0' && r <= '9' || r >= 'a' && r <= 'z' || r >= 'A' && r <= 'Z' || r == '|' || r == ':' || r == ';') {
						odd++
					}
				}
			}
			for _, s := range g.G.Syn {
				alts += len(s.Alts)
			}
			kind := "GLL"
			switch {
			case len(g.G.Syn) == 0:
				kind = "lexer only"
			case hasFlag(c.Flags, "-knuth"):
				kind = "Knuth"
			case hasFlag(c.Flags, "-pager"):
				kind = "Pager"
			}
			st.C(kind)
			st.CN("generated Go files", n)
			nt := odd > 0 || alts >= 12
			st.Ev(strings.Join(c.Flags, " ")+"\x00"+text, nt)
			if nt && len(st.Samples) < 1 {
				st.Samples = append(st.Samples, fmt.Sprintf("%s, %d files:\n%s", kind, n, text))
			}
			return nil
		},
	})
}
