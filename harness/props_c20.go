package main

import (
	"fmt"
	"regexp"
	"strconv"
	"strings"
)

var rePos = regexp.MustCompile(`at line (\d+) col (\d+)`)
var reAST = regexp.MustCompile(`(?m)^AST Error: g\.(?:bnf|md):(\d+):(\d+): (.*)$`)
var reSem = regexp.MustCompile(`(?m)^Semantic Error at line (\d+) col (\d+): (.*)$`)
var reFlw = regexp.MustCompile(`(?m)^Production (\S+) has empty follow set`)

func hasFlag(fs []string, names ...string) bool {
	for _, f := range fs {
		for _, n := range names {
			if f == n {
				return true
			}
		}
	}
	return false
}

// judgeAccept compares what gogll did with a file with the reference reader.
// It returns the reference's verdict.
func judgeAccept(c *Case, text string, o RunOut) (*Fail, string) {
	bad := func(f string, a ...interface{}) (*Fail, string) {
		return failf(-1, "%s\nexit %d, output:\n%s", fmt.Sprintf(f, a...), o.Code, clip(o.Out, 2500)), ""
	}
	if o.Timeout {
		return bad("gogll does not terminate")
	}
	if o.Panicked() {
		return bad("gogll crashed")
	}
	if c.MD {
		text = blank(text)
	}
	in := []rune(text)
	f := ReadGogll(text)
	if f.SynErr >= 0 {
		t := f.Toks[f.SynErr]
		ln, col := lineCol(in, t.L)
		if o.Code == 0 {
			return bad("gogll accepts a file with a syntax error at line %d col %d", ln, col)
		}
		if m := rePos.FindStringSubmatch(o.Out); !strings.Contains(o.Out, "Parse Error") || m == nil || m[1] != strconv.Itoa(ln) || m[2] != strconv.Itoa(col) {
			return bad("the first syntax error is at line %d col %d, which the message does not say", ln, col)
		}
		return nil, "syntax error"
	}
	if len(f.Errs) > 0 {
		if o.Code == 0 {
			return bad("gogll accepts a file that breaks a rule: %+v", f.Errs)
		}
		m := reAST.FindStringSubmatch(o.Out)
		if m == nil {
			m = reSem.FindStringSubmatch(o.Out)
		}
		if m == nil {
			if f.DupU && strings.Contains(o.Out, "duplicate range") {
				return nil, "repeated range"
			}
			return bad("no message says what is wrong: %+v", f.Errs)
		}
		for _, e := range f.Errs {
			ln, col := lineCol(in, e.Pos)
			if m[1] == strconv.Itoa(ln) && m[2] == strconv.Itoa(col) && strings.Contains(m[3], e.What) {
				return nil, strings.Join(strings.Fields(e.What)[:3], " ")
			}
		}
		if f.DupU && strings.Contains(m[3], "duplicate range") {
			return nil, "repeated range"
		}
		return bad("the message is not about one of %+v", f.Errs)
	}
	if f.DupU && o.Code != 0 && strings.Contains(o.Out, "duplicate range") {
		return nil, "repeated range"
	}
	if f.OddWS && o.Code != 0 && strings.Contains(o.Out, "may not contain whitespace") {
		return nil, "odd white space"
	}
	if o.Code == 0 {
		if len(f.G.Syn) > 0 && !hasFlag(c.Flags, "-knuth", "-pager") {
			cf := NewCFG(f.G)
			for i := range cf.NTs {
				if len(cf.follow[i]) == 0 {
					return bad("nothing can follow %s, but gogll does not say so", cf.NTs[i])
				}
			}
		}
		return nil, "accepted"
	}
	// a well-formed grammar was rejected
	if strings.Contains(o.Out, "Error in lexer events") {
		d := NewDFA(f.G, NewRand(1), 400)
		if d.Laminar && d.Full {
			return bad("gogll rejects the tokens although no two character classes overlap partially")
		}
		return nil, "overlapping classes"
	}
	if m := reFlw.FindStringSubmatch(o.Out); m != nil && len(f.G.Syn) > 0 {
		cf := NewCFG(f.G)
		for i, n := range cf.NTs {
			if n == m[1] && len(cf.follow[i]) == 0 {
				return nil, "unused rule"
			}
		}
		return bad("gogll says that nothing can follow %s", m[1])
	}
	if hasFlag(c.Flags, "-knuth", "-pager") && !hasFlag(c.Flags, "-resolve_conflicts") && strings.Contains(o.Out, "LR(1) conflicts") {
		return nil, "LR(1) conflicts"
	}
	return bad("gogll rejects a well-formed grammar")
}

func init() {
	register(&Prop{
		ID: "C20", N: [2]int{6000, 40000}, Batch: 500, NoShrinkGrammar: true,
		Rule: "a case is one grammar file, written with random layout and possibly as markdown: well formed, with edits of tokens or characters, with a broken scope rule, garbage, or with arbitrary bytes, and a set of options; an evaluation is one run of gogll, which must end with the exit status and the message that an independent reader of the notation asks for; non-trivial = the file has at least 20 tokens before its first error",
		Assume: []string{"Lexical grammars whose character classes overlap partially may be rejected with the message 'Error in lexer events'.",
			"Grammars with rules that nothing can follow (never used) are rejected for GLL parsers with the message 'has empty follow set'."},
		Gen: func(r *Rand, i int) *Case { return wildCase(r, i, false) },
		Expand: func(c *Case) []*Unit {
			return []*Unit{{Text: c.fileText(), MD: c.MD, Flags: c.Flags, NoBuild: true}}
		},
		Judge: func(e *Env, c *Case, os []*UnitOut, st *Stats) *Fail {
			text := strings.ReplaceAll(c.fileText(), "{{PKG}}", os[0].Pkg)
			f, verdict := judgeAccept(c, text, os[0].Gogll)
			if f != nil {
				return f
			}
			t := text
			if c.MD {
				t = blank(t)
				st.C("markdown")
			}
			g := ReadGogll(t)
			n := len(g.Toks)
			if g.SynErr >= 0 {
				n = g.SynErr
			}
			st.C("kind " + c.Kind)
			st.C("verdict: " + verdict)
			if c.Flags != nil {
				st.C("flags " + strings.Join(c.Flags, " "))
			}
			st.Ev(strings.Join(c.Flags, " ")+"\x00"+text, n >= 20)
			if n >= 20 && len(st.Samples) < 1 {
				st.Samples = append(st.Samples, verdict+":\n"+text)
			}
			return nil
		},
	})
}
