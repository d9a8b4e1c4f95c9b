// Package shared holds the job/result protocol between the harness and the
// driver that is linked with the generated lexers and parsers.
package shared

import (
	"errors"
	"fmt"
	"runtime"
	"strings"
	"sync"
)

// Job is one request to the driver.
type Job struct {
	ID    int      `json:"id"`
	G     int      `json:"g"`
	Op    string   `json:"op"`
	Input string   `json:"in,omitempty"`
	Runes []rune   `json:"runes,omitempty"`
	Mode  string   `json:"mode,omitempty"`
	N     int      `json:"n,omitempty"`
	Ins   []string `json:"ins,omitempty"`
	Path  string   `json:"path,omitempty"`
}

// InputRunes returns the runes of the job's input.
func (j *Job) InputRunes() []rune {
	if j.Runes != nil {
		return append([]rune{}, j.Runes...)
	}
	return []rune(j.Input)
}

// Tok is one token.
type Tok struct {
	T    string `json:"t"`           // type ID
	L    int    `json:"l"`           // left extent
	R    int    `json:"r"`           // right extent
	S    bool   `json:"s,omitempty"` // Suppress()
	Ln   int    `json:"ln,omitempty"`
	Col  int    `json:"col,omitempty"`
	Ln2  int    `json:"ln2,omitempty"`
	Col2 int    `json:"col2,omitempty"`
	Ln3  int    `json:"ln3,omitempty"`
	Col3 int    `json:"col3,omitempty"`
	Lit  []rune `json:"lit,omitempty"`
	LitS string `json:"lits,omitempty"`
	Esc  []rune `json:"esc,omitempty"`
	EscS string `json:"escs,omitempty"`
	EscP string `json:"escp,omitempty"` // panic of LiteralStripEscape
}

// PErr is one GLL parse error.
type PErr struct {
	Tok  Tok      `json:"tok"`
	TokI int      `json:"ti"` // index in lexer.Tokens of the token object
	Ln   int      `json:"ln"`
	Col  int      `json:"col"`
	Exp  []string `json:"exp"`  // ids by token type, sorted
	ExpS []string `json:"exps"` // the strings, sorted
	Str  string   `json:"str"`
	Slot string   `json:"slot"`
}

// Child is the result of one child accessor.
type Child struct {
	NT           bool     `json:"nt"`
	Sym          string   `json:"sym"`
	Kids         []string `json:"kids,omitempty"` // keys of NT children (GetNTChildrenI)
	Occ          []string `json:"occ,omitempty"`  // via GetNTChildren(nt, occurrence)
	All          []string `json:"all,omitempty"`  // via GetAllNTChildren
	One          string   `json:"one,omitempty"`  // via GetNTChildI, only when exactly 1
	OneO         string   `json:"oneo,omitempty"` // via GetNTChild, only when exactly 1
	Tok          *Tok     `json:"tok,omitempty"`
	TokI         int      `json:"ti,omitempty"`
	Panic        string   `json:"panic,omitempty"`
	MultiNoPanic bool     `json:"mnp,omitempty"` // GetNTChildI returned although there are several
}

// BSRNode is one BSR with its children.
type BSRNode struct {
	Key  string   `json:"key"`
	NT   string   `json:"nt"`
	Alt  int      `json:"alt"`
	L    int      `json:"l"`
	P    int      `json:"p"`
	R    int      `json:"r"`
	Syms []string `json:"syms"`
	Kids []Child  `json:"kids,omitempty"`
}

// GLL is the result of a GLL parse.
type GLL struct {
	OK      bool      `json:"ok"`
	Errs    []PErr    `json:"errs,omitempty"`
	ErrsNil bool      `json:"errsnil"`
	Roots   []string  `json:"roots,omitempty"`
	Root1   string    `json:"root1,omitempty"`
	Root1P  string    `json:"root1p,omitempty"`
	All     []string  `json:"all,omitempty"`
	Nodes   []BSRNode `json:"nodes,omitempty"` // reachable via the API from the roots
	Amb     bool      `json:"amb"`
	AmbDone bool      `json:"ambdone"`
	Report  string    `json:"report,omitempty"`
	Right   int       `json:"right"`
	Contain []string  `json:"contain,omitempty"`
	SPPF    []string  `json:"sppf,omitempty"`   // edges
	Post    []BSRNode `json:"post,omitempty"`   // nodes again, after ToSPPF
	Dot     []string  `json:"dot,omitempty"`    // differences between the dot file and the SPPF
	Texts   []string  `json:"texts,omitempty"`  // String of every element
	RootTs  []string  `json:"rootts,omitempty"` // String of every root
	Dump    string    `json:"dump,omitempty"`
	Strs    []string  `json:"strs,omitempty"`  // GetAllStrings of every prefix and extent
	StrTs   []string  `json:"strts,omitempty"` // their String, in the same order
}

// LR is the result of an LR(1) parse.
type LR struct {
	OK   bool     `json:"ok"`
	Err  string   `json:"err,omitempty"`
	Tree string   `json:"tree,omitempty"`
	Log  []string `json:"log,omitempty"`
	ResT string   `json:"rest,omitempty"`
	J    string   `json:"j,omitempty"` // the tree as JSON
	// the structured error: text, expected tokens, offset, type and literal
	ErrStr string   `json:"errstr,omitempty"`
	ErrExp []string `json:"errexp,omitempty"`
	ErrAt  int      `json:"errat,omitempty"`
	ErrT   int      `json:"errt,omitempty"`
	ErrLit string   `json:"errlit,omitempty"`
}

// Meta is the token metadata of a grammar.
type Meta struct {
	IDs   []string       `json:"ids"`
	Strs  []string       `json:"strs"`
	IDTo  map[string]int `json:"idto"`
	StrTo map[string]int `json:"strto"`
	TypID []string       `json:"typid"`
	TypS  []string       `json:"typs"`
	Supp  []bool         `json:"supp"`
	EOF   int            `json:"eof"`
	Err   int            `json:"err"`
}

// Res is the driver's answer.
type Res struct {
	ID    int      `json:"id"`
	Panic string   `json:"panic,omitempty"`
	Toks  []Tok    `json:"toks,omitempty"`
	NIn   int      `json:"nin,omitempty"`
	In    []rune   `json:"in,omitempty"`
	GLL   *GLL     `json:"gll,omitempty"`
	LR    *LR      `json:"lr,omitempty"`
	Meta  *Meta    `json:"meta,omitempty"`
	Strs  []string `json:"strs,omitempty"`
	Steps []Cost   `json:"steps,omitempty"`
	Fatal string   `json:"fatal,omitempty"` // set by the harness: crash or timeout
}

/*** LR action tracing ***/

// Node is the value built by a traced action.
type Node struct {
	Prod string
	Kids []interface{}
}

var (
	mu      sync.Mutex
	Tracing bool
	ActLog  []string
	FailAt  int // 1-based number of the action that fails, 0: none
	count   int
)

// ResetTrace prepares a traced parse.
func ResetTrace(failAt int) {
	mu.Lock()
	ActLog, FailAt, count, Tracing = nil, failAt, 0, true
	mu.Unlock()
}

// StopTrace ends tracing.
func StopTrace() []string {
	mu.Lock()
	defer mu.Unlock()
	Tracing = false
	return ActLog
}

// Act is called by every AST action of the traced ast package.
func Act(prod string, args ...interface{}) (interface{}, error) {
	if Tracing {
		mu.Lock()
		defer mu.Unlock()
		count++
		s := prod + "("
		for i, a := range args {
			if i > 0 {
				s += " "
			}
			s += Render(a)
		}
		ActLog = append(ActLog, s+")")
		if FailAt != 0 && count == FailAt {
			err := errors.New("injected-failure-" + prod)
			if count%2 == 1 { // a result together with the error
				return &Node{Prod: prod, Kids: append([]interface{}{}, args...)}, err
			}
			return nil, err
		}
	}
	return &Node{Prod: prod, Kids: append([]interface{}{}, args...)}, nil
}

// Render renders an attribute as a term.
func Render(x interface{}) string {
	switch n := x.(type) {
	case nil:
		return "<nil>"
	case *Node:
		s := n.Prod + "("
		for i, k := range n.Kids {
			if i > 0 {
				s += " "
			}
			s += Render(k)
		}
		return s + ")"
	}
	if t, ok := x.(interface {
		TypeID() string
		Lext() int
	}); ok {
		return fmt.Sprintf("%s@%d", t.TypeID(), t.Lext())
	}
	return fmt.Sprintf("%T", x)
}

// RenderJ renders an attribute for JSON: ["P", production, kids...] or ["T", token, offset].
func RenderJ(x interface{}) interface{} {
	if n, ok := x.(*Node); ok {
		a := []interface{}{"P", n.Prod}
		for _, k := range n.Kids {
			a = append(a, RenderJ(k))
		}
		return a
	}
	if t, ok := x.(interface {
		TypeID() string
		Lext() int
	}); ok {
		return []interface{}{"T", t.TypeID(), t.Lext()}
	}
	return fmt.Sprintf("%T", x)
}

/*** registry ***/

// RunFn runs one job on one grammar's generated code.
type RunFn func(j *Job) *Res

// Registry maps grammar numbers to their adapters.
var Registry = map[int]RunFn{}

// Register registers an adapter.
func Register(g int, f RunFn) { Registry[g] = f }

/*** counting steps ***/

// Cost is what one run of a lexer or parser took.
type Cost struct {
	Runes int    `json:"runes"`
	Toks  int    `json:"toks,omitempty"`
	Steps int64  `json:"steps"`
	Bytes uint64 `json:"bytes"`
	OK    bool   `json:"ok,omitempty"`
	Over  bool   `json:"over,omitempty"` // given up after Steps steps
}

var steps, stepLimit int64

type overLimit struct{}

// Step is called by instrumented code at the start of every function and loop
// body.
func Step() {
	steps++
	if stepLimit > 0 && steps > stepLimit {
		panic(overLimit{})
	}
}

// Measure runs f and counts its steps (at most limit) and the bytes that it
// allocates.
func Measure(limit int64, f func()) (c Cost) {
	var a, b runtime.MemStats
	steps, stepLimit = 0, limit
	runtime.ReadMemStats(&a)
	defer func() {
		runtime.ReadMemStats(&b)
		c.Steps, c.Bytes = steps, b.TotalAlloc-a.TotalAlloc
		stepLimit = 0
		if r := recover(); r != nil {
			if _, ok := r.(overLimit); !ok {
				panic(r)
			}
			c.Over = true
		}
	}()
	f()
	return
}

// MeasureJob runs lex and parse on the texts x u^k y v^k z for the sizes
// k = N and k = N*mult, with Ins = x, u, y, v, z: the costs of the lexer and
// the parser for the first size and those for the second; for mult = 2, if
// the parser takes more than 14 times as many steps or bytes for the second,
// also those for twice that size.
func MeasureJob(j *Job, mult int, lex func(in []rune) int, parse func() bool) (cs []Cost) {
	lim := []int64{1 << 28, 1 << 28}
	sizes := []int{j.N, j.N * mult}
	for i := 0; i < len(sizes); i++ {
		k := sizes[i]
		in := []rune(Pump(j.Ins, k))
		n := 0
		l := Measure(lim[0], func() { n = lex(in) })
		l.Runes, l.Toks = len(in), n
		cs = append(cs, l)
		if parse == nil {
			cs = append(cs, Cost{})
		} else if l.Over {
			cs = append(cs, Cost{Over: true})
		} else {
			ok := false
			p := Measure(lim[1], func() { ok = parse() })
			p.Runes, p.Toks, p.OK = len(in), n, ok
			cs = append(cs, p)
			lim[1] = p.Steps*100 + 1<<20
			if i == 1 && mult == 2 && (p.Steps > 14*cs[1].Steps || p.Bytes > 14*cs[1].Bytes) {
				sizes = append(sizes, 2*k)
				lim[1] = p.Steps * 13
			}
		}
		lim[0] = l.Steps*100 + 1<<20
	}
	return
}

// Pump returns x u^k y v^k z.
func Pump(p []string, k int) string {
	return p[0] + strings.Repeat(p[1], k) + p[2] + strings.Repeat(p[3], k) + p[4]
}
