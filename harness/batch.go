package main

import (
	"bytes"
	"context"
	"embed"
	"encoding/json"
	"errors"
	"fmt"
	"go/ast"
	"go/parser"
	"go/printer"
	"go/token"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"runtime"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"

	"vh/shared"
)

//go:embed tmpl/*.txt shared/shared.go
var embedded embed.FS

func embeddedText(name string) string {
	b, err := embedded.ReadFile(name)
	if err != nil {
		die("embedded %s: %v", name, err)
	}
	return string(b)
}

// die ends the check with an error (neither 0 nor 1).
func die(format string, a ...interface{}) {
	fmt.Fprintf(os.Stderr, "CHECK ERROR: "+format+"\n", a...)
	cleanup()
	os.Exit(3)
}

// Env is the environment of one run: gogll built from /repo's working tree.
type Env struct {
	Repo  string
	Work  string
	Gogll string
	Race  bool
	// Fast lowers the time limits, while a failing case is shrunk.
	Fast  bool
	cache string
	nb    int
	mu    sync.Mutex
}

// RunGogll runs the built gogll; a run that takes too long is tried again
// with a longer limit before it counts as one that does not end.
func (e *Env) RunGogll(dir string, args ...string) RunOut {
	if e.Fast {
		return runCmd(dir, 10, e.Gogll, args...)
	}
	o := runCmd(dir, 40, e.Gogll, args...)
	if o.Timeout {
		o = runCmd(dir, 100, e.Gogll, args...)
	}
	return o
}

var cleanups []func()

func cleanup() {
	for _, f := range cleanups {
		f()
	}
	cleanups = nil
}

// NewEnv builds gogll from the repository's working tree.
func NewEnv() *Env {
	repo := os.Getenv("VH_REPO")
	if repo == "" {
		repo = "/repo"
	}
	work, err := os.MkdirTemp("", "vh-")
	if err != nil {
		die("mkdtemp: %v", err)
	}
	cleanups = append(cleanups, func() { os.RemoveAll(work) })
	e := &Env{Repo: repo, Work: work, Gogll: filepath.Join(work, "gogll")}
	// a private build cache: hard links of the user's cache, or an empty one
	e.cache = filepath.Join(work, "gocache")
	if c := goCache(); c != "" && exec.Command("cp", "-al", c, e.cache).Run() != nil {
		os.RemoveAll(e.cache)
	}
	out, err := e.goCmd(repo, 600, nil, "build", "-o", e.Gogll, ".")
	if err != nil {
		die("building gogll from %s: %v\n%s", repo, err, out)
	}
	return e
}

func goCache() string {
	b, err := exec.Command("go", "env", "GOCACHE").Output()
	if err != nil {
		return ""
	}
	return strings.TrimSpace(string(b))
}

func (e *Env) goCmd(dir string, secs int, env []string, args ...string) (string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "go", args...)
	cmd.Dir = dir
	cmd.Env = append(append(os.Environ(), "GOFLAGS=-mod=mod -trimpath -buildvcs=false", "GOTOOLCHAIN=local", "GOPROXY=off", "GOSUMDB=off", "GO111MODULE=on", "GOWORK=off", "CGO_ENABLED=0", "GOCACHE="+e.cache), env...)
	if dir == e.Repo {
		cmd.Env = append(cmd.Env, "GOFLAGS=-mod=readonly -trimpath -buildvcs=false")
	}
	var buf bytes.Buffer
	cmd.Stdout, cmd.Stderr = &buf, &buf
	err := cmd.Run()
	if ctx.Err() != nil {
		err = errors.New("timeout")
	}
	return buf.String(), err
}

// RunOut is the outcome of one run of a command.
type RunOut struct {
	Code    int
	Out     string
	Timeout bool
}

// Panicked tells whether the Go runtime reported a crash.
func (o RunOut) Panicked() bool {
	return o.Timeout || o.Code == 2 && strings.Contains(o.Out, "goroutine ") || o.Code < 0 ||
		strings.Contains(o.Out, "panic: ") && strings.Contains(o.Out, "goroutine ")
}

func runCmd(dir string, secs int, name string, args ...string) RunOut {
	return runCmdEnv(dir, secs, nil, name, args...)
}

// runCmdEnv runs a command with a bound on its memory.
func runCmdEnv(dir string, secs int, env []string, name string, args ...string) RunOut {
	ctx, cancel := context.WithTimeout(context.Background(), time.Duration(secs)*time.Second)
	defer cancel()
	cmd := exec.CommandContext(ctx, "/bin/sh", append([]string{"-c", `ulimit -v 3500000; ulimit -c 0; exec "$@"`, "sh", name}, args...)...)
	cmd.Dir = dir
	cmd.Env = append(os.Environ(), env...)
	f, err := os.CreateTemp("", "vh-out-")
	if err != nil {
		die("temp: %v", err)
	}
	defer os.Remove(f.Name())
	defer f.Close()
	cmd.Stdout, cmd.Stderr = f, f
	err = cmd.Run()
	o := RunOut{}
	b := make([]byte, 1<<20)
	n, _ := f.ReadAt(b, 0)
	o.Out = string(b[:n])
	if ctx.Err() != nil {
		o.Timeout, o.Code = true, -1
	} else if err != nil {
		var ee *exec.ExitError
		if errors.As(err, &ee) {
			o.Code = ee.ExitCode()
		} else {
			die("running %s: %v", name, err)
		}
	}
	return o
}

// Unit is one grammar to be compiled by gogll and linked into a batch.
type Unit struct {
	G       *Grammar      `json:"g,omitempty"`
	Text    string        `json:"text,omitempty"` // used if G == nil, or if not empty
	MD      bool          `json:"md,omitempty"`
	Flags   []string      `json:"flags,omitempty"`
	Jobs    []*shared.Job `json:"jobs,omitempty"`
	NoBuild bool          `json:"nobuild,omitempty"`
	RealAST bool          `json:"realast,omitempty"`
	Count   bool          `json:"count,omitempty"` // count the steps of the generated code
}

// UnitOut is what happened to a unit.
type UnitOut struct {
	Gogll    RunOut
	Files    map[string]string // generated files, if Keep
	Dir      string
	Built    bool
	BuildErr string
	Res      []*shared.Res // per job
	Pkg      string
	// Skipped: not run, or not completely, since something else in the
	// batch did not end.
	Skipped bool
}

// stuck describes a run of the unit that crashed or did not end.
func (o *UnitOut) stuck() (int, string) {
	if o.Gogll.Timeout {
		return -1, "gogll does not end\n" + clip(o.Gogll.Out, 1000)
	}
	for k, r := range o.Res {
		if r != nil && r.Fatal != "" {
			return k, r.Fatal
		}
	}
	return -1, ""
}

// PkgFor returns the package of unit i; {{PKG}} in Text stands for it.
func PkgFor(i int) string { return fmt.Sprintf("vb/g%d", i) }

func (u *Unit) source(i int) string {
	t := u.Text
	if t == "" && u.G != nil {
		t = u.G.Text("{{PKG}}")
		if u.MD {
			t = MD(t)
		}
	}
	return strings.ReplaceAll(t, "{{PKG}}", PkgFor(i))
}

func (u *Unit) isLR() bool {
	for _, f := range u.Flags {
		if f == "-knuth" || f == "-pager" {
			return true
		}
	}
	return false
}

func parallel(n int, f func(i int)) {
	w := runtime.NumCPU()
	if w > n {
		w = n
	}
	var wg sync.WaitGroup
	ch := make(chan int)
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for i := range ch {
				f(i)
			}
		}()
	}
	for i := 0; i < n; i++ {
		ch <- i
	}
	close(ch)
	wg.Wait()
}

func writeFile(p, s string) {
	if err := os.MkdirAll(filepath.Dir(p), 0o755); err != nil {
		die("mkdir: %v", err)
	}
	if err := os.WriteFile(p, []byte(s), 0o644); err != nil {
		die("write: %v", err)
	}
}

func exists(p string) bool { _, err := os.Stat(p); return err == nil }

// Batch is a compiled set of units.
type Batch struct {
	e    *Env
	Dir  string
	Outs []*UnitOut
	Us   []*Unit
	bin  string
	// abort is set once something does not end: the rest is skipped
	abort atomic.Bool
}

func (b *Batch) Close() { os.RemoveAll(b.Dir) }

// RunBatch generates, compiles and runs units; the caller closes the batch.
func (e *Env) RunBatch(us []*Unit) *Batch {
	e.mu.Lock()
	e.nb++
	dir := filepath.Join(e.Work, fmt.Sprintf("b%d", e.nb))
	e.mu.Unlock()
	b := &Batch{e: e, Dir: dir, Us: us, Outs: make([]*UnitOut, len(us))}
	sum, err := os.ReadFile(filepath.Join(e.Repo, "go.sum"))
	if err != nil {
		die("go.sum: %v", err)
	}
	req := goutilVersion(e.Repo)
	writeFile(filepath.Join(dir, "go.mod"), "module vb\n\ngo 1.15\n\nrequire github.com/goccmack/goutil "+req+"\n")
	writeFile(filepath.Join(dir, "go.sum"), string(sum))
	writeFile(filepath.Join(dir, "shared", "shared.go"), embeddedText("shared/shared.go"))
	parallel(len(us), func(i int) {
		u := us[i]
		o := &UnitOut{Pkg: PkgFor(i)}
		b.Outs[i] = o
		if b.abort.Load() {
			o.Skipped, o.Res = true, make([]*shared.Res, len(u.Jobs))
			return
		}
		o.Dir = filepath.Join(dir, fmt.Sprintf("g%d", i))
		ext := ".bnf"
		if u.MD {
			ext = ".md"
		}
		writeFile(filepath.Join(o.Dir, "g"+ext), u.source(i))
		args := append(append([]string{}, u.Flags...), "g"+ext)
		o.Gogll = e.RunGogll(o.Dir, args...)
		if o.Gogll.Timeout {
			b.abort.Store(true)
		}
	})
	b.abort.Store(false)
	build := []int{}
	for i, u := range us {
		o := b.Outs[i]
		if o.Skipped || o.Gogll.Code != 0 || u.NoBuild || o.Gogll.Panicked() || !exists(filepath.Join(o.Dir, "lexer", "lexer.go")) {
			continue
		}
		if u.Count {
			if err := countSteps(o.Dir); err != nil {
				o.BuildErr = err.Error()
				continue
			}
		}
		if err := b.writeAdapter(i); err != nil {
			o.BuildErr = err.Error()
			continue
		}
		build = append(build, i)
	}
	b.compile(build)
	b.runJobs()
	return b
}

var reGoutil = regexp.MustCompile(`github.com/goccmack/goutil (v\S+)`)

func goutilVersion(repo string) string {
	b, err := os.ReadFile(filepath.Join(repo, "go.mod"))
	if err != nil {
		die("go.mod: %v", err)
	}
	m := reGoutil.FindSubmatch(b)
	if m == nil {
		die("no goutil in go.mod")
	}
	return string(m[1])
}

func (b *Batch) writeAdapter(i int) error {
	u, o := b.Us[i], b.Outs[i]
	rep := func(s string) string {
		return strings.ReplaceAll(strings.ReplaceAll(s, "PKG", o.Pkg), "GNUM", fmt.Sprint(i))
	}
	adp := filepath.Join(o.Dir, "adp")
	writeFile(filepath.Join(adp, "lex.go"), rep(embeddedText("tmpl/lex.go.txt")))
	switch {
	case !exists(filepath.Join(o.Dir, "parser", "parser.go")):
		writeFile(filepath.Join(adp, "more.go"), rep(embeddedText("tmpl/lexonly.go.txt")))
	case u.isLR():
		writeFile(filepath.Join(adp, "more.go"), rep(embeddedText("tmpl/lr.go.txt")))
		if !u.RealAST {
			if err := traceAST(filepath.Join(o.Dir, "ast", "ast.go")); err != nil {
				return err
			}
		}
	default:
		writeFile(filepath.Join(adp, "more.go"), rep(embeddedText("tmpl/gll.go.txt")))
	}
	return nil
}

// traceAST replaces the bodies of the generated action skeletons.
func traceAST(file string) error {
	fs := token.NewFileSet()
	f, err := parser.ParseFile(fs, file, nil, 0)
	if err != nil {
		return fmt.Errorf("generated ast.go does not parse: %v", err)
	}
	var sb strings.Builder
	sb.WriteString("package ast\n\nimport \"vb/shared\"\n\n")
	for _, d := range f.Decls {
		fd, ok := d.(*ast.FuncDecl)
		if !ok {
			continue
		}
		ps := []string{}
		for _, p := range fd.Type.Params.List {
			for _, n := range p.Names {
				ps = append(ps, n.Name)
			}
			if len(p.Names) == 0 {
				ps = append(ps, "_unnamed")
			}
		}
		decl := ""
		if len(ps) > 0 {
			decl = strings.Join(ps, ", ") + " interface{}"
		}
		args := ""
		for _, p := range ps {
			args += ", " + p
		}
		fmt.Fprintf(&sb, "func %s(%s) (interface{}, error) {\n\treturn shared.Act(%q%s)\n}\n\n", fd.Name.Name, decl, fd.Name.Name, args)
	}
	sb.WriteString("var _ = shared.Act\n")
	return os.WriteFile(file, []byte(sb.String()), 0o644)
}

// countSteps makes the generated code count its steps: a call of shared.Step
// at the start of the body of every function and loop.
func countSteps(dir string) error {
	for _, sub := range []string{"lexer", "token", "parser", "errors"} {
		err := filepath.Walk(filepath.Join(dir, sub), func(p string, info os.FileInfo, err error) error {
			if err != nil || info.IsDir() || !strings.HasSuffix(p, ".go") {
				return nil
			}
			fs := token.NewFileSet()
			f, err := parser.ParseFile(fs, p, nil, 0)
			if err != nil {
				return err
			}
			n := 0
			step := func(b *ast.BlockStmt) {
				if b == nil {
					return
				}
				n++
				b.List = append([]ast.Stmt{&ast.ExprStmt{X: &ast.CallExpr{Fun: &ast.SelectorExpr{X: ast.NewIdent("vbsteps"), Sel: ast.NewIdent("Step")}}}}, b.List...)
			}
			ast.Inspect(f, func(n ast.Node) bool {
				switch x := n.(type) {
				case *ast.FuncDecl:
					step(x.Body)
				case *ast.FuncLit:
					step(x.Body)
				case *ast.ForStmt:
					step(x.Body)
				case *ast.RangeStmt:
					step(x.Body)
				}
				return true
			})
			if n == 0 {
				return nil
			}
			f.Decls = append([]ast.Decl{&ast.GenDecl{Tok: token.IMPORT, Specs: []ast.Spec{&ast.ImportSpec{
				Name: ast.NewIdent("vbsteps"), Path: &ast.BasicLit{Kind: token.STRING, Value: "\"vb/shared\""}}}}}, f.Decls...)
			var buf bytes.Buffer
			if err := printer.Fprint(&buf, fs, f); err != nil {
				return err
			}
			return os.WriteFile(p, buf.Bytes(), 0o644)
		})
		if err != nil {
			return fmt.Errorf("counting steps: %v", err)
		}
	}
	return nil
}

var rePkgErr = regexp.MustCompile(`(?m)^# vb/g(\d+)(?:/|$|\s)`)
var reAnyErr = regexp.MustCompile(`\bg(\d+)/`)
var reFileErr = regexp.MustCompile(`(?m)^(?:\.?/?)g(\d+)/[^\s:]+:\d+`)

func (b *Batch) compile(idx []int) {
	bad := map[int]string{}
	for round := 0; ; round++ {
		good := []int{}
		for _, i := range idx {
			if _, ok := bad[i]; !ok {
				good = append(good, i)
			}
		}
		for _, i := range idx {
			b.Outs[i].Built = false
		}
		if len(good) == 0 {
			break
		}
		var sb strings.Builder
		for _, i := range good {
			fmt.Fprintf(&sb, "\t_ %q\n", b.Outs[i].Pkg+"/adp")
		}
		main := strings.ReplaceAll(embeddedText("tmpl/main.go.txt"), "IMPORTS", sb.String())
		writeFile(filepath.Join(b.Dir, "drv", "main.go"), main)
		b.bin = filepath.Join(b.Dir, "drv", "drv")
		args := []string{"build", "-ldflags=-s -w", "-o", b.bin}
		env := []string{}
		if b.e.Race {
			args = append(args, "-race")
			env = append(env, "CGO_ENABLED=1")
		}
		out, err := b.e.goCmd(b.Dir, 800, env, append(args, "./drv")...)
		if err == nil {
			for _, i := range good {
				b.Outs[i].Built = true
			}
			break
		}
		if len(bad) > 0 && round > 12 {
			// enough grammars whose code does not compile
			for _, i := range good {
				b.Outs[i].Skipped = true
			}
			break
		}
		if err.Error() == "timeout" {
			die("go build of a batch: %v\n%s", err, clip(out, 3000))
		}
		found := false
		for _, re := range []*regexp.Regexp{rePkgErr, reFileErr, reAnyErr} {
			if found && re == reAnyErr {
				break
			}
			for _, m := range re.FindAllStringSubmatchIndex(out, -1) {
				var n int
				fmt.Sscan(out[m[2]:m[3]], &n)
				if _, ok := bad[n]; !ok {
					bad[n] = clip(out[m[0]:], 600)
					found = true
				}
			}
		}
		if !found {
			die("go build of a batch failed without naming a grammar: %v\n%s", err, clip(out, 3000))
		}
	}
	for i, s := range bad {
		if b.Outs[i].BuildErr == "" {
			b.Outs[i].BuildErr = s
		}
	}
}

func clip(s string, n int) string {
	if len(s) > n {
		return s[:n] + "..."
	}
	return s
}

type jobRef struct {
	u, k int
	j    *shared.Job
}

func (b *Batch) runJobs() {
	all := []jobRef{}
	for i, u := range b.Us {
		o := b.Outs[i]
		o.Res = make([]*shared.Res, len(u.Jobs))
		if !o.Built {
			continue
		}
		for k, j := range u.Jobs {
			c := *j
			c.G = i
			all = append(all, jobRef{i, k, &c})
		}
	}
	for n := range all {
		all[n].j.ID = n
	}
	w := runtime.NumCPU()
	shards := make([][]jobRef, w)
	// contiguous shards keep the replay order of a grammar's inputs
	for n, j := range all {
		s := n * w / len(all)
		shards[s] = append(shards[s], j)
	}
	parallel(w, func(s int) { b.runShard(shards[s], "") })
	for _, j := range all {
		if b.Outs[j.u].Res[j.k] == nil {
			b.Outs[j.u].Skipped = true
		}
	}
}

// runShard runs the jobs in one driver process, restarting it after a crash.
func (b *Batch) runShard(jobs []jobRef, alone string) {
	for len(jobs) > 0 && (alone != "" || !b.abort.Load()) {
		done, why := b.drive(jobs, alone)
		if done == len(jobs) {
			return
		}
		if done < 0 {
			die("driver: %s", why)
		}
		// jobs[done] crashed or hung: run it alone to confirm
		if alone == "" && !b.e.Fast {
			b.runShard(jobs[done:done+1], "90")
		} else {
			b.Outs[jobs[done].u].Res[jobs[done].k] = &shared.Res{ID: jobs[done].j.ID, Fatal: why}
		}
		if r := b.Outs[jobs[done].u].Res[jobs[done].k]; r == nil || r.Fatal != "" {
			b.abort.Store(true)
		}
		jobs = jobs[done+1:]
	}
}

func (b *Batch) drive(jobs []jobRef, secs string) (int, string) {
	cmd := exec.Command(b.bin)
	cmd.Dir = b.Dir
	cmd.Env = os.Environ()
	if b.e.Fast {
		secs = "5"
	}
	if secs != "" {
		cmd.Env = append(cmd.Env, "VH_JOB_SECONDS="+secs)
	}
	if b.e.Race {
		cmd.Env = append(cmd.Env, "VH_NOLIMIT=1", "GORACE=halt_on_error=1 exitcode=66")
	}
	stdin, err := cmd.StdinPipe()
	if err != nil {
		return -1, err.Error()
	}
	stdout, err := cmd.StdoutPipe()
	if err != nil {
		return -1, err.Error()
	}
	errBuf := &limitedBuf{max: 1 << 16}
	cmd.Stderr = errBuf
	if err := cmd.Start(); err != nil {
		return -1, err.Error()
	}
	go func() {
		enc := json.NewEncoder(stdin)
		for _, j := range jobs {
			if enc.Encode(j.j) != nil {
				break
			}
		}
		stdin.Close()
	}()
	dec := json.NewDecoder(stdout)
	n := 0
	for n < len(jobs) {
		r := &shared.Res{}
		if err := dec.Decode(r); err != nil {
			break
		}
		if r.ID != jobs[n].j.ID {
			cmd.Process.Kill()
			cmd.Wait()
			return -1, "out of order answer"
		}
		b.Outs[jobs[n].u].Res[jobs[n].k] = r
		n++
	}
	err = cmd.Wait()
	if n == len(jobs) {
		return n, ""
	}
	why := fmt.Sprintf("%v: %s", err, clip(errBuf.String(), 1500))
	if err != nil && strings.Contains(err.Error(), "exit status 97") {
		why = "timeout: " + why
	}
	return n, why
}

type limitedBuf struct {
	b   bytes.Buffer
	max int
}

func (l *limitedBuf) Write(p []byte) (int, error) {
	if l.b.Len() < l.max {
		l.b.Write(p)
	}
	return len(p), nil
}
func (l *limitedBuf) String() string { return l.b.String() }

// ReadTree reads all files below dir, relative names.
func ReadTree(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, info os.FileInfo, err error) error {
		if err != nil || info.IsDir() {
			return nil
		}
		b, err := os.ReadFile(p)
		if err == nil {
			rel, _ := filepath.Rel(dir, p)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

func sortedKeys[V any](m map[string]V) []string {
	ks := make([]string, 0, len(m))
	for k := range m {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}
