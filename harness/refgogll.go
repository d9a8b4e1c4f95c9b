package main

import (
	"fmt"
	"strings"
	"unicode"
)

/*** Reference reader of the gogll notation (gogll.md) ***/

// GTok is a token of a grammar file.
type GTok struct {
	T    string // "id", "nt", "str", "chr", "$", "!err" or the literal itself
	S    string
	L, R int
}

var gogllWords = map[string]bool{"package": true, "any": true, "not": true, "letter": true, "upcase": true, "lowcase": true, "number": true, "empty": true}

var gogllUni = func() map[string]bool {
	m := map[string]bool{}
	for _, n := range strings.Fields(uniCats + " " + uniProps) {
		m[`\p{`+n+`}`] = true
	}
	return m
}()

// quotedLen is the length of a quoted literal at the start of s, 0 if none.
func quotedLen(s []rune, q rune, esc string, min, max int) int {
	if len(s) == 0 || s[0] != q {
		return 0
	}
	n := 0
	for i := 1; i < len(s); {
		switch {
		case s[i] == q:
			if n < min {
				return 0
			}
			return i + 1
		case n == max:
			return 0
		case s[i] == '\\':
			if i+1 >= len(s) || !strings.ContainsRune(esc, s[i+1]) {
				return 0
			}
			i += 2
		default:
			i++
		}
		n++
	}
	return 0
}

// gogllLex splits a text into tokens; it ends with "!err" at the first place
// where no token starts, else with "$".
func gogllLex(in []rune) (ts []GTok) {
	i := 0
	for {
		for i < len(in) && unicode.IsSpace(in[i]) {
			i++
		}
		if i >= len(in) {
			return append(ts, GTok{"$", "", len(in), len(in)})
		}
		s := in[i:]
		n, t := 0, ""
		if strings.ContainsRune("!:;|()[]{}<>.-", s[0]) {
			n, t = 1, string(s[:1])
		}
		if len(s) > 1 && (s[0] == '\'' && s[1] == '[' || s[0] == ']' && s[1] == '\'') {
			n, t = 2, string(s[:2])
		}
		if s[0] == '\\' {
			j := 0
			for j < len(s) && s[j] != '}' && j < 60 {
				j++
			}
			if j < len(s) && gogllUni[string(s[:j+1])] {
				n, t = j+1, string(s[:j+1])
			}
		}
		if unicode.IsUpper(s[0]) || unicode.IsLower(s[0]) {
			j := 1
			for j < len(s) && (s[j] == '_' || unicode.IsLetter(s[j]) || unicode.IsNumber(s[j])) {
				j++
			}
			switch w := string(s[:j]); {
			case unicode.IsUpper(s[0]):
				n, t = j, "nt"
			case gogllWords[w]:
				n, t = j, w
			case j > 1:
				n, t = j, "id"
			}
		}
		if k := quotedLen(s, '"', `\"nrt`, 1, 1<<30); k > n {
			n, t = k, "str"
		}
		if k := quotedLen(s, '\'', `\'nrt`, 1, 1); k > n {
			n, t = k, "chr"
		}
		if n == 0 {
			return append(ts, GTok{"!err", "", i, i})
		}
		ts = append(ts, GTok{t, string(s[:n]), i, i + n})
		i += n
	}
}

func unquote(s string) string {
	rs := []rune(s)
	rs = rs[1 : len(rs)-1]
	var o []rune
	for i := 0; i < len(rs); i++ {
		r := rs[i]
		if r == '\\' {
			i++
			switch r = rs[i]; r {
			case 'n':
				r = '\n'
			case 'r':
				r = '\r'
			case 't':
				r = '\t'
			}
		}
		o = append(o, r)
	}
	return string(o)
}

// GErr is a violation of a scope rule.
type GErr struct {
	Pos  int
	Kind string // "ast" or "sem"
	What string
}

// GFile is what the reference reader found in a grammar file.
type GFile struct {
	Toks   []GTok
	Pkg    string
	G      *Grammar
	SynErr int // index of the first token that no grammar has there, -1: none
	Errs   []GErr
	DupU   bool // a Unicode set repeats a range
	OddWS  bool // a literal contains unusual white space
	p      int
}

type gSyntaxError struct{}

func (f *GFile) next(ts ...string) GTok {
	t := f.Toks[f.p]
	for _, x := range ts {
		if t.T == x {
			f.p++
			return t
		}
	}
	panic(gSyntaxError{})
}

func (f *GFile) is(ts ...string) bool {
	for _, x := range ts {
		if f.Toks[f.p].T == x {
			return true
		}
	}
	return false
}

func (f *GFile) err(t GTok, kind, what string, a ...interface{}) {
	f.Errs = append(f.Errs, GErr{t.L, kind, fmt.Sprintf(what, a...)})
}

// ReadGogll reads a grammar file (without markdown).
func ReadGogll(text string) (f *GFile) {
	f = &GFile{Toks: gogllLex([]rune(text)), G: &Grammar{}, SynErr: -1}
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(gSyntaxError); !ok {
				panic(e)
			}
			f.SynErr = f.p
		}
	}()
	f.next("package")
	f.Pkg = unquote(f.next("str").S)
	lex := map[string]bool{}
	syn := map[string]bool{}
	type ref struct {
		t  GTok
		nt bool
	}
	refs := []ref{}
	order := []int{} // i: lexical rule i, -1-i: syntax rule i
	for {
		switch t := f.next("!", "id", "nt"); t.T {
		case "nt":
			f.next(":")
			if syn[t.S] {
				f.err(t, "ast", "duplicate syntax rule %s", t.S)
			}
			syn[t.S] = true
			sr := &SynRule{NT: t.S}
			for {
				alt := []Sym{}
				if f.is("empty") {
					f.next("empty")
				} else {
					for first := true; first || f.is("nt", "id", "str"); first = false {
						switch s := f.next("nt", "id", "str"); s.T {
						case "nt":
							refs = append(refs, ref{s, true})
							alt = append(alt, Sym{KNT, s.S})
						case "id":
							refs = append(refs, ref{s, false})
							alt = append(alt, Sym{KTok, s.S})
						case "str":
							v := unquote(s.S)
							if strings.ContainsAny(v, " \t\r\n") {
								f.err(s, "ast", "may not contain whitespace")
							}
							for _, r := range v {
								f.OddWS = f.OddWS || unicode.IsSpace(r)
							}
							alt = append(alt, Sym{KLit, v})
						}
					}
				}
				sr.Alts = append(sr.Alts, alt)
				if f.next("|", ";").T == ";" {
					break
				}
			}
			order = append(order, -1-len(f.G.Syn))
			f.G.Syn = append(f.G.Syn, sr)
		default:
			lr := &LexRule{}
			if t.T == "!" {
				lr.Supp = true
				t = f.next("id")
			}
			lr.ID = t.S
			f.next(":")
			lr.Re = f.regexp(lex)
			f.next(";")
			if lex[t.S] {
				f.err(t, "ast", "duplicate lex rule %s", t.S)
			}
			lex[t.S] = true
			order = append(order, len(f.G.Lex))
			f.G.Lex = append(f.G.Lex, lr)
		}
		if f.is("$") {
			break
		}
	}
	for _, r := range refs {
		if r.nt && !syn[r.t.S] {
			f.err(r.t, "sem", "No declaration of syntax rule %s", r.t.S)
		}
		if !r.nt && !lex[r.t.S] {
			f.err(r.t, "sem", "No declaration of lex rule %s", r.t.S)
		}
	}
	for _, o := range order {
		if o < 0 {
			o = len(f.G.Lex) - 1 - o
		}
		f.G.Order = append(f.G.Order, o)
	}
	return
}

var reFirst = []string{".", "any", "chr", "(", "[", "{", "<", "not", "letter", "upcase", "lowcase", "number", "'[", "id"}
var reClose = map[string]string{"(": ")", "[": "]", "{": "}", "<": ">"}

func (f *GFile) regexp(lex map[string]bool) (re []*Lex) {
	for first := true; first || f.is(reFirst...); first = false {
		switch t := f.next(reFirst...); t.T {
		case ".":
			re = append(re, &Lex{K: LAny})
		case "any":
			re = append(re, &Lex{K: LAnyOf, S: unquote(f.next("str").S)})
		case "not":
			re = append(re, &Lex{K: LNot, S: unquote(f.next("str").S)})
		case "chr":
			re = append(re, &Lex{K: LChar, S: unquote(t.S)})
		case "id":
			if !lex[t.S] {
				f.err(t, "ast", "token %s not defined yet", t.S)
			}
			re = append(re, &Lex{K: LRef, S: t.S})
		case "'[":
			l := &Lex{K: LUSet}
			for {
				var u USpec
				if len(l.U) > 0 && f.is("]'") {
					f.p++
					break
				}
				if len(l.U) > 0 && f.is("-") {
					f.p++
					u.Excl = true
				}
				n := f.Toks[f.p]
				if !strings.HasPrefix(n.T, `\p{`) {
					panic(gSyntaxError{})
				}
				f.p++
				u.Name = n.T[3 : len(n.T)-1]
				for _, p := range uniPropNames {
					u.Prop = u.Prop || p.Name == u.Name
				}
				for _, v := range l.U {
					f.DupU = f.DupU || v.Name == u.Name
				}
				l.U = append(l.U, u)
			}
			re = append(re, l)
		case "(", "[", "{", "<":
			l := &Lex{K: t.T}
			for {
				l.Alts = append(l.Alts, f.regexp(lex))
				if f.next("|", reClose[t.T]).T != "|" {
					break
				}
			}
			re = append(re, l)
		default:
			re = append(re, &Lex{K: LClass, S: t.T})
		}
	}
	return
}
