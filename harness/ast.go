package main

import (
	"fmt"
	"strconv"
	"strings"
)

// Abstract syntax of B, rendering to tokens, and joining of tokens to text.
// Written from the language documentation, independently of the compiler.

type EK int

const (
	KNum EK = iota
	KLit    // literal given as source text (Name), with value Val
	KVar
	KCall
	KUn  // - !
	KBin // binary operator
	KCond
	KAsg // Op is the binary operator of a compound assignment, or ""
	KPreInc
	KPreDec
	KPostInc
	KPostDec
	KIndex
	KDeref
	KAddr
	KParen
)

type Expr struct {
	K       EK
	Op      string
	A, B, C *Expr
	Val     int64
	Name    string
	Args    []*Expr
}

func Num(v int64) *Expr               { return &Expr{K: KNum, Val: v} }
func Lit(src string, v int64) *Expr   { return &Expr{K: KLit, Name: src, Val: v} }
func V(n string) *Expr                { return &Expr{K: KVar, Name: n} }
func Un(op string, a *Expr) *Expr     { return &Expr{K: KUn, Op: op, A: a} }
func Bin(op string, a, b *Expr) *Expr { return &Expr{K: KBin, Op: op, A: a, B: b} }
func Cond(a, b, c *Expr) *Expr        { return &Expr{K: KCond, A: a, B: b, C: c} }
func Asg(op string, a, b *Expr) *Expr { return &Expr{K: KAsg, Op: op, A: a, B: b} }
func Idx(a, b *Expr) *Expr            { return &Expr{K: KIndex, A: a, B: b} }
func Deref(a *Expr) *Expr             { return &Expr{K: KDeref, A: a} }
func Addr(a *Expr) *Expr              { return &Expr{K: KAddr, A: a} }
func Paren(a *Expr) *Expr             { return &Expr{K: KParen, A: a} }
func Inc(k EK, a *Expr) *Expr         { return &Expr{K: k, A: a} }
func Call(fn string, args ...*Expr) *Expr {
	return &Expr{K: KCall, A: V(fn), Args: args}
}
func CallE(fn *Expr, args ...*Expr) *Expr { return &Expr{K: KCall, A: fn, Args: args} }

var binLevel = map[string]int{"*": 3, "/": 3, "%": 3, "+": 4, "-": 4, "<<": 5, ">>": 5, "<": 6, "<=": 6, ">": 6, ">=": 6, "==": 7, "!=": 7, "&": 8, "|": 10}
var binOps = []string{"*", "/", "%", "+", "-", "<<", ">>", "<", "<=", ">", ">=", "==", "!=", "&", "|"}

// compound assignment spelling: = followed by the operator
func (e *Expr) level() int {
	switch e.K {
	case KNum:
		if e.Val < 0 {
			return 2
		}
		return 0
	case KLit, KVar, KParen:
		return 0
	case KCall, KIndex, KPostInc, KPostDec:
		return 1
	case KUn, KDeref, KAddr, KPreInc, KPreDec:
		return 2
	case KBin:
		return binLevel[e.Op]
	case KCond:
		return 13
	case KAsg:
		return 14
	}
	panic("level")
}

// Tokens renders e with the parentheses its place requires.
func (e *Expr) tokens(max int, out *[]string) {
	put := func(s string) { *out = append(*out, s) }
	if e.level() > max {
		put("(")
		e.tokens(15, out)
		put(")")
		return
	}
	switch e.K {
	case KNum:
		if e.Val < 0 {
			put("-")
			put(strconv.FormatUint(uint64(-e.Val), 10))
		} else {
			put(strconv.FormatInt(e.Val, 10))
		}
	case KLit, KVar:
		put(e.Name)
	case KParen:
		put("(")
		e.A.tokens(15, out)
		put(")")
	case KCall:
		e.A.tokens(1, out)
		put("(")
		for i, a := range e.Args {
			if i > 0 {
				put(",")
			}
			a.tokens(15, out)
		}
		put(")")
	case KIndex:
		e.A.tokens(1, out)
		put("[")
		e.B.tokens(15, out)
		put("]")
	case KPostInc:
		e.A.tokens(1, out)
		put("++")
	case KPostDec:
		e.A.tokens(1, out)
		put("--")
	case KUn:
		put(e.Op)
		e.A.tokens(2, out)
	case KDeref:
		put("*")
		e.A.tokens(2, out)
	case KAddr:
		put("&")
		e.A.tokens(2, out)
	case KPreInc:
		put("++")
		e.A.tokens(2, out)
	case KPreDec:
		put("--")
		e.A.tokens(2, out)
	case KBin:
		l := binLevel[e.Op]
		e.A.tokens(l, out)
		put(e.Op)
		e.B.tokens(l-1, out)
	case KCond:
		e.A.tokens(12, out)
		put("?")
		e.B.tokens(12, out)
		put(":")
		e.C.tokens(13, out)
	case KAsg:
		e.A.tokens(2, out)
		put("=" + e.Op)
		e.B.tokens(14, out)
	}
}

type SK int

const (
	SExpr SK = iota
	SBlock
	SIf
	SWhile
	SSwitch
	SCase
	SLabel
	SGoto
	SReturn
	SNull
	SAuto
	SExtrn
)

type Decl struct {
	Name string
	Vec  bool
	Size int64
	Src  string // source text of the size ("" for none)
}

type Stmt struct {
	K     SK
	E     *Expr
	S, S2 *Stmt
	List  []*Stmt
	Name  string
	Val   int64
	Src   string // source of a case constant
	Decls []Decl
	Bare  bool // switch without parentheses
}

func Ex(e *Expr) *Stmt              { return &Stmt{K: SExpr, E: e} }
func Block(l ...*Stmt) *Stmt        { return &Stmt{K: SBlock, List: l} }
func If(e *Expr, s, s2 *Stmt) *Stmt { return &Stmt{K: SIf, E: e, S: s, S2: s2} }
func While(e *Expr, s *Stmt) *Stmt  { return &Stmt{K: SWhile, E: e, S: s} }
func Switch(e *Expr, s *Stmt) *Stmt { return &Stmt{K: SSwitch, E: e, S: s} }
func CaseS(v int64, s *Stmt) *Stmt  { return &Stmt{K: SCase, Val: v, S: s} }
func Label(n string, s *Stmt) *Stmt { return &Stmt{K: SLabel, Name: n, S: s} }
func Goto(n string) *Stmt           { return &Stmt{K: SGoto, Name: n} }
func Return(e *Expr) *Stmt          { return &Stmt{K: SReturn, E: e} }
func Null() *Stmt                   { return &Stmt{K: SNull} }
func Auto(d ...Decl) *Stmt          { return &Stmt{K: SAuto, Decls: d} }
func Extrn(names ...string) *Stmt {
	s := &Stmt{K: SExtrn}
	for _, n := range names {
		s.Decls = append(s.Decls, Decl{Name: n})
	}
	return s
}

// endsWithOpenIf tells whether an else after s would bind into s.
func (s *Stmt) endsWithOpenIf() bool {
	switch s.K {
	case SIf:
		if s.S2 == nil {
			return true
		}
		return s.S2.endsWithOpenIf()
	case SWhile, SSwitch, SCase, SLabel:
		return s.S.endsWithOpenIf()
	}
	return false
}

func (s *Stmt) tokens(out *[]string) {
	put := func(t ...string) { *out = append(*out, t...) }
	switch s.K {
	case SExpr:
		s.E.tokens(15, out)
		put(";")
	case SBlock:
		put("{")
		for _, x := range s.List {
			x.tokens(out)
		}
		put("}")
	case SIf:
		put("if", "(")
		s.E.tokens(15, out)
		put(")")
		if s.S2 != nil && s.S.endsWithOpenIf() {
			put("{")
			s.S.tokens(out)
			put("}")
		} else {
			s.S.tokens(out)
		}
		if s.S2 != nil {
			put("else")
			s.S2.tokens(out)
		}
	case SWhile:
		put("while", "(")
		s.E.tokens(15, out)
		put(")")
		s.S.tokens(out)
	case SSwitch:
		put("switch")
		if !s.Bare {
			put("(")
		}
		s.E.tokens(15, out)
		if !s.Bare {
			put(")")
		}
		s.S.tokens(out)
	case SCase:
		src := s.Src
		if src == "" {
			src = strconv.FormatInt(s.Val, 10)
		}
		put("case", src, ":")
		s.S.tokens(out)
	case SLabel:
		put(s.Name, ":")
		s.S.tokens(out)
	case SGoto:
		put("goto", s.Name, ";")
	case SReturn:
		if s.E == nil {
			put("return", ";")
		} else {
			put("return", "(")
			s.E.tokens(15, out)
			put(")", ";")
		}
	case SNull:
		put(";")
	case SAuto, SExtrn:
		if s.K == SAuto {
			put("auto")
		} else {
			put("extrn")
		}
		for i, d := range s.Decls {
			if i > 0 {
				put(",")
			}
			put(d.Name)
			if d.Vec {
				put("[")
				if d.Src != "" {
					put(d.Src)
				} else {
					put(strconv.FormatInt(d.Size, 10))
				}
				put("]")
			}
		}
		put(";")
	}
}

type Func struct {
	Name   string
	Params []string
	Body   *Stmt
	code   *code
}

// Init is one initial value of an external: a number or a string literal.
type Init struct {
	Src   string
	Val   int64
	Str   []byte // string (without the final zero) when IsStr
	IsStr bool
}

type Glob struct {
	Name  string
	Vec   bool
	Size  int64 // declared size, -1 for none
	Src   string
	Inits []Init
}

type Unit struct {
	Globs []*Glob
	Funcs []*Func
	// order of definitions in the source: >=0 function index, <0 global -(i+1); nil: globals then functions
	Order []int
}

func (g *Glob) tokens(out *[]string) {
	put := func(t ...string) { *out = append(*out, t...) }
	put(g.Name)
	if g.Vec {
		put("[")
		if g.Src != "" {
			put(g.Src)
		} else if g.Size >= 0 {
			put(strconv.FormatInt(g.Size, 10))
		}
		put("]")
	}
	for i, in := range g.Inits {
		if i > 0 {
			put(",")
		}
		if strings.HasPrefix(in.Src, "-") {
			put("-", in.Src[1:])
		} else {
			put(in.Src)
		}
	}
	put(";")
}

func (f *Func) tokens(out *[]string) {
	put := func(t ...string) { *out = append(*out, t...) }
	put(f.Name, "(")
	for i, p := range f.Params {
		if i > 0 {
			put(",")
		}
		put(p)
	}
	put(")")
	f.Body.tokens(out)
}

func (u *Unit) order() []int {
	if u.Order != nil {
		return u.Order
	}
	var o []int
	for i := range u.Globs {
		o = append(o, -(i + 1))
	}
	for i := range u.Funcs {
		o = append(o, i)
	}
	return o
}

func (u *Unit) Tokens() []string {
	var out []string
	for _, i := range u.order() {
		if i < 0 {
			u.Globs[-i-1].tokens(&out)
		} else {
			u.Funcs[i].tokens(&out)
		}
	}
	return out
}

// ---- tokens to text ----

var multiOps = []string{"===", "=<=", "=<<", "=>=", "=>>", "=!=", "==", "=+", "=-", "=*", "=/", "=%", "=&", "=|", "=<", "=>", "++", "--", "<=", "<<", ">=", ">>", "!="}

func isIdent(b byte) bool {
	return b == '_' || b == '#' || b >= '0' && b <= '9' || b >= 'a' && b <= 'z' || b >= 'A' && b <= 'Z'
}

// firstToken returns the length of the longest token at the start of s.
func firstToken(s string) int {
	if isIdent(s[0]) {
		i := 1
		for i < len(s) && isIdent(s[i]) {
			i++
		}
		return i
	}
	if s[0] == '"' || s[0] == '\'' {
		i := 1
		for i < len(s) && s[i] != s[0] {
			if s[i] == '*' {
				i++
			}
			i++
		}
		return i + 1
	}
	for _, m := range multiOps {
		if strings.HasPrefix(s, m) {
			if m == "=/" && strings.HasPrefix(s, "=/*") {
				return 1 // a comment follows
			}
			return len(m)
		}
	}
	return 1
}

// needSpace tells whether a and b would not stay two tokens when written together.
func needSpace(a, b string) bool {
	if strings.Contains(a+b, "/*") && a[0] != '"' && a[0] != '\'' && b[0] != '"' && b[0] != '\'' {
		return true
	}
	if isIdent(a[len(a)-1]) && isIdent(b[0]) && a[0] != '"' && a[0] != '\'' {
		return true
	}
	return firstToken(a+b) != len(a)
}

type Spacing int

const (
	Tight Spacing = iota // a blank only where two tokens would merge
	Loose                // a blank between any two tokens
	Lines                // a newline between any two tokens
)

func Join(toks []string, sp Spacing) string {
	var b strings.Builder
	for i, t := range toks {
		if i > 0 {
			switch sp {
			case Tight:
				if needSpace(toks[i-1], t) {
					b.WriteByte(' ')
				}
			case Loose:
				b.WriteByte(' ')
			case Lines:
				b.WriteByte('\n')
			}
		}
		b.WriteString(t)
	}
	b.WriteByte('\n')
	return b.String()
}

func (e *Expr) String() string {
	var t []string
	e.tokens(15, &t)
	return strings.TrimSpace(Join(t, Tight))
}

func (u *Unit) Text(sp Spacing) string { return Join(u.Tokens(), sp) }

var _ = fmt.Sprint
