package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// clOptions is what a command line asks for.
type clOptions struct {
	help, version, bad bool
	knuth, pager       bool
	verbose, all       bool
	resolve, prof      bool
	out                string
	src                string
	hasSrc             bool
}

// parseCL reads a command line as documented: flags before the source file,
// -x or --x, -x=value, the last one counts, "--" ends the flags.
func parseCL(args []string) (o clOptions) {
	for len(args) > 0 {
		a := args[0]
		if len(a) < 2 || a[0] != '-' {
			break
		}
		args = args[1:]
		if a == "--" {
			break
		}
		a = strings.TrimPrefix(strings.TrimPrefix(a, "-"), "-")
		val, hasVal := "", false
		if p := strings.IndexByte(a, '='); p >= 0 {
			a, val, hasVal = a[:p], a[p+1:], true
		}
		b := true
		if a != "o" && hasVal {
			switch val {
			case "1", "t", "T", "true", "TRUE", "True":
			case "0", "f", "F", "false", "FALSE", "False":
				b = false
			default:
				o.bad = true
				return o
			}
		}
		switch a {
		case "o":
			if !hasVal {
				if len(args) == 0 {
					o.bad = true
					return o
				}
				val, args = args[0], args[1:]
			}
			o.out = val
		case "h":
			o.help = b
		case "version":
			o.version = b
		case "knuth":
			o.knuth = b
		case "pager":
			o.pager = b
		case "v":
			o.verbose = b
		case "a":
			o.all = b
		case "resolve_conflicts":
			o.resolve = b
		case "CPUProf":
			o.prof = b
		case "bs", "go", "gll":
		default:
			o.bad = true
			return o
		}
	}
	if len(args) > 0 {
		o.src, o.hasSrc = args[0], true
	}
	return o
}

var clPackages = map[string][]string{
	"lex": {"lexer/lexer.go", "token/token.go"},
	"gll": {"parser/parser.go", "parser/bsr/bsr.go", "parser/slot/slot.go", "parser/symbols/symbols.go", "sppf/sppf.go"},
	"lr":  {"parser/parser.go", "parser/action.go", "parser/actiontable.go", "parser/gototable.go", "parser/productionstable.go", "ast/ast.go", "errors/errors.go"},
}

// clSrcs are paths of source files relative to the current directory, and
// whether they are read as markdown.
var clSrcs = []struct {
	path string
	md   bool
}{
	{"g.bnf", false}, {"g.md", true}, {"g", false}, {"md", false}, {"a.b.md", true}, {"g.md.bnf", false}, {"g.mdx", false}, {"gmd", false},
	{"d.md/g.bnf", false}, {"d.md/g", false}, {"sub/g.bnf", false}, {"./g.bnf", false}, {"sub/./g.md", true}, {"../up/g.bnf", false},
	{"my grammar.bnf", false}, {"größe.md", true}, {"sub dir/x y.md", true}, {".hidden", false}, {"ABS/g.bnf", false}, {"ABS/deep/g.md", true},
	{"g.txt", false}, {"g.gogll", false}, {"sub//g.bnf", false}, {"=.bnf", false},
}

var clOuts = []string{"out", "out/", "./out", "a/b/c", "../side", "../side/x/", "ABS/abs", "ABS/abs/d/", "o u t", "ö", ".", "./", "..", "old", "x=y", "out.md", "a/../b"}

func c27Gen(r *Rand, i int) *Case {
	c := &Case{Kind: "cl"}
	g := genWild(r)
	if r.P(10) {
		g.Syn, g.Order = nil, nil
	}
	src := clSrcs[r.Intn(len(clSrcs))]
	if i < 3*len(clSrcs) {
		src = clSrcs[i%len(clSrcs)]
	}
	t := strings.ReplaceAll(layout(r, g.fileToks(r), false), "{{PKG}}", "p/q")
	if strings.Contains(t, "`") && src.md {
		src = clSrcs[0]
	}
	if r.P(6) {
		t = mutateText(r, t)
	}
	if src.md && !strings.Contains(t, "`") {
		t = mdWrap(r, []string{t})
	}
	c.Text, c.MD = t, src.md
	bl := func(name string) string {
		d := pick(r, "-", "-", "-", "--")
		return d + name + pick(r, "", "", "", "", "=true", "=1", "=T", "=false", "=0", "=F")
	}
	fl := []string{}
	add := func(p int, f func() []string) {
		if r.P(p) {
			fl = append(fl, f()...)
		}
	}
	one := func(n string) func() []string { return func() []string { return []string{bl(n)} } }
	lr := r.P(60)
	if lr {
		fl = append(fl, bl(pick(r, "knuth", "pager")))
		add(75, one("resolve_conflicts"))
	}
	add(6, one("knuth"))
	add(6, one("pager"))
	add(25, one("v"))
	add(15, one("a"))
	add(10, one("bs"))
	add(12, one("CPUProf"))
	add(5, one("h"))
	add(5, one("version"))
	add(8, func() []string { return []string{"-gll"} })
	add(8, func() []string { return []string{"-go"} })
	add(2, func() []string {
		return []string{pick(r, "-x", "-help-me", "-vv", "---v", "-knuth=maybe", "-=x", "-v=2")}
	})
	outP := func() []string {
		o := clOuts[r.Intn(len(clOuts))]
		switch r.Intn(4) {
		case 0:
			return []string{"-o=" + o}
		case 1:
			return []string{"--o", o}
		}
		return []string{"-o", o}
	}
	add(65, outP)
	add(5, outP)
	// any order, with the value of -o kept behind it
	units := [][]string{}
	for k := 0; k < len(fl); k++ {
		if (fl[k] == "-o" || fl[k] == "--o") && k+1 < len(fl) {
			units = append(units, fl[k:k+2])
			k++
			continue
		}
		units = append(units, fl[k:k+1])
	}
	for k := len(units) - 1; k > 0; k-- {
		q := r.Intn(k + 1)
		units[k], units[q] = units[q], units[k]
	}
	args := []string{}
	for _, u := range units {
		args = append(args, u...)
	}
	if r.P(6) || strings.HasPrefix(src.path, "-") {
		args = append(args, "--")
	}
	if !r.P(4) {
		p := src.path
		c.Text = t
		switch {
		case r.P(4):
			p = pick(r, "nofile.bnf", "no/such/g.md", "emptydir", ".", "nofile")
			c.Kind = "nosrc"
		}
		args = append(args, p)
	}
	c.Args = append([]string{src.path}, args...)
	return c
}

func judgeC27(e *Env, c *Case, st *Stats) *Fail {
	root := e.scratch()
	defer os.RemoveAll(root)
	cwd := filepath.Join(root, "w", "cwd")
	os.MkdirAll(filepath.Join(cwd, "emptydir"), 0o755)
	abs := filepath.Join(root, "abs")
	exp := func(s string) string { return strings.Replace(s, "ABS", abs, 1) }
	loc := func(s string) string { // relative to root
		s = exp(s)
		if !filepath.IsAbs(s) {
			s = filepath.Join(cwd, s)
		}
		s, err := filepath.Rel(root, filepath.Clean(s))
		if err != nil {
			die("%v", err)
		}
		return s
	}
	model := map[string]string{}
	put := func(rel, text string) {
		writeFile(filepath.Join(root, rel), text)
		model[rel] = text
	}
	put("w/cwd/keep", "k")
	put("w/cwd/old/parser/mine.go", "package parser\n")
	put("w/up/keep", "k")
	put(loc(c.Args[0]), c.Text)
	args := []string{}
	for _, a := range c.Args[1:] {
		args = append(args, exp(a))
	}
	o := parseCL(args)
	run := e.RunGogll(cwd, args...)
	got := ReadTree(root)
	line := strings.ReplaceAll(strings.Join(args, " "), root, "")
	bad := func(s string, a ...interface{}) *Fail {
		return failf(-1, "file %s; gogll %s: %s", c.Args[0], line, fmt.Sprintf(s, a...)+"\n"+clip(run.Out, 800))
	}
	if run.Timeout {
		return bad("does not terminate")
	}
	st.C("source " + c.Args[0])
	// what it writes besides the output
	delete(got, "w/cwd/cpu.prof")
	class, nt := "", false
	switch {
	case o.bad:
		class = "unknown flag"
		if run.Code == 0 || run.Out == "" {
			return bad("exit %d for a wrong flag", run.Code)
		}
	case o.help:
		class = "-h"
		if run.Code != 0 || !strings.Contains(run.Out, "-knuth") || !strings.Contains(run.Out, "<source file>") {
			return bad("exit %d, or no usage for -h", run.Code)
		}
	case o.version:
		class = "-version"
		if run.Code != 0 || strings.TrimSpace(run.Out) == "" {
			return bad("exit %d for -version", run.Code)
		}
	case !o.hasSrc:
		class = "no source file"
		if run.Code == 0 || !strings.Contains(run.Out, "ource file") {
			return bad("exit %d without a source file", run.Code)
		}
	case o.knuth && o.pager:
		class = "-knuth and -pager"
		if run.Code == 0 || !strings.Contains(run.Out, "knuth") {
			return bad("exit %d for both -knuth and -pager", run.Code)
		}
	case c.Kind == "nosrc":
		class = "no such file"
		if run.Code == 0 || run.Out == "" {
			return bad("exit %d for a source file that cannot be read", run.Code)
		}
	default:
		if run.Panicked() {
			return bad("crashed")
		}
		// the same options, written plainly, in a fresh directory
		plain := []string{}
		kind := "gll"
		if o.knuth {
			kind, plain = "knuth", append(plain, "-knuth")
		}
		if o.pager {
			kind, plain = "pager", append(plain, "-pager")
		}
		if o.verbose {
			plain = append(plain, "-v")
		}
		if o.resolve {
			plain = append(plain, "-resolve_conflicts")
		}
		name := "g.bnf"
		if strings.HasSuffix(c.Args[0], ".md") {
			name = "g.md"
		}
		q, files := e.gen(name, c.Text, plain)
		class = fmt.Sprintf("%s exit %d", kind, q.Code)
		if q.Code != run.Code {
			return bad("exit %d, but %d for %v %s\n%s", run.Code, q.Code, plain, name, clip(q.Out, 600))
		}
		if x := strings.ReplaceAll(run.Out, o.src+":", name+":"); x != q.Out {
			return bad("prints other messages than for %v %s: %s", plain, name, firstDiff(x, q.Out))
		}
		if q.Code == 0 {
			need := append([]string{}, clPackages["lex"]...)
			_, parser := files["parser/parser.go"]
			if parser {
				if kind == "gll" {
					need = append(need, clPackages["gll"]...)
				} else {
					need = append(need, clPackages["lr"]...)
				}
			}
			n := 0
			for _, f := range need {
				if _, ok := files[f]; !ok {
					return bad("does not generate %s (%v)", f, plain)
				}
				n++
			}
			for f := range files {
				if strings.HasSuffix(f, ".go") {
					n--
				}
			}
			if n != 0 {
				return bad("generates other Go files than %v: %v", need, sortedKeys(files))
			}
			if parser {
				class += " parser"
			}
		}
		dir := "w/cwd"
		if o.out != "" {
			dir = loc(o.out)
		} else {
			dir = loc(filepath.Dir(exp(o.src)))
		}
		for f, t := range files {
			model[filepath.Join(dir, f)] = t
		}
		nt = len(args) > 1 || o.src != "g.bnf"
		if o.out != "" {
			st.C("-o " + o.out[strings.LastIndex(o.out, "abs")+1:])
		}
		if o.prof {
			class += " CPUProf"
		}
	}
	if d := diffFiles(got, model); d != "" {
		return bad("%s", d)
	}
	st.C(class)
	st.Ev(c.Args[0]+" "+line+"\x00"+c.Text, nt)
	if nt && len(st.Samples) < 2 {
		st.Samples = append(st.Samples, "gogll "+line)
	}
	return nil
}

func init() {
	register(&Prop{
		ID: "C27", N: [2]int{900, 12000}, Batch: 300, NoShrinkGrammar: true,
		Rule:   "a case is a generated grammar file, plain or markdown, under one of 24 names and directories, and a command line: any options with any spelling of flags and values, in any order, repeated or contradictory, wrong flags, a missing source file or one that cannot be read, and 17 forms of output directories; an evaluation compares exit status, messages and the whole scratch tree with what a model of the command line predicts from a plain run of gogll in a fresh directory; non-trivial = a grammar was read and the command line has options or an unusual name",
		Assume: []string{"-go=false, -gll=false, -rust and -t are not used (undocumented or unsupported by this version), nor arguments behind the source file.", "cpu.prof may be written by -CPUProf."},
		Gen:    c27Gen,
		Direct: judgeC27,
	})
}
