package main

import (
	"errors"
	"strings"
)

// A reference tokenizer and parser of B, written from the language rules:
// longest token first, white space and comments separate tokens.

var errSyntax = errors.New("syntax")

func tokenize(s string) ([]string, error) {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c >= 9 && c <= 13:
			i++
			continue
		case strings.HasPrefix(s[i:], "/*"):
			e := strings.Index(s[i+2:], "*/")
			if e < 0 {
				return nil, errSyntax
			}
			i += e + 4
			continue
		case c == '"' || c == '\'':
			j := i + 1
			for j < len(s) && s[j] != c {
				if s[j] == '*' {
					j++
				}
				j++
			}
			if j >= len(s) {
				return nil, errSyntax
			}
			out = append(out, s[i:j+1])
			i = j + 1
			continue
		}
		n := firstToken(s[i:])
		out = append(out, s[i:i+n])
		i += n
	}
	return out, nil
}

type refParser struct {
	t      []string
	i      int
	funcs  map[string]bool // names that are functions, not variables
	unsure bool            // the text uses something the language does not settle
}

func (p *refParser) peek() string {
	if p.i < len(p.t) {
		return p.t[p.i]
	}
	return ""
}

func (p *refParser) fail() { panic(errSyntax) }

func (p *refParser) next() string {
	if p.i >= len(p.t) {
		p.fail()
	}
	p.i++
	return p.t[p.i-1]
}

func (p *refParser) want(s string) {
	if p.next() != s {
		p.fail()
	}
}

func isName(t string) bool {
	return t != "" && isIdent(t[0]) && !(t[0] >= '0' && t[0] <= '9')
}

var keywords = map[string]bool{"auto": true, "extrn": true, "if": true, "else": true, "while": true, "switch": true, "case": true, "goto": true, "return": true}

// name reads a name. Whether a keyword or a word that starts with a digit may
// be one is not settled.
func (p *refParser) name() string {
	t := p.next()
	if !isIdent(t[0]) {
		p.fail()
	}
	if !isName(t) || keywords[t] {
		p.unsure = true
	}
	return t
}

func (p *refParser) lvalue(e *Expr) {
	switch e.K {
	case KVar:
		if p.funcs[e.Name] {
			p.fail()
		}
	case KDeref, KIndex, KPreInc, KPreDec:
	default:
		p.fail()
	}
}

func parseConst(t string) (int64, bool) {
	if t == "" {
		return 0, false
	}
	if t[0] >= '0' && t[0] <= '9' {
		base := uint64(10)
		if t[0] == '0' {
			base = 8
		}
		var v uint64
		for i := 0; i < len(t); i++ {
			if t[i] < '0' || t[i] > '9' {
				return 0, false
			}
			v = v*base + uint64(t[i]-'0')
		}
		return int64(v), true
	}
	if t[0] == '\'' {
		var v uint64
		b := decodeString(t)
		if len(b) > 8 {
			return 0, false
		}
		for _, c := range b {
			v = v<<8 | uint64(c)
		}
		return int64(v), true
	}
	return 0, false
}

func (p *refParser) primary() *Expr {
	t := p.next()
	var e *Expr
	switch {
	case t == "(":
		e = Paren(p.expr(15))
		p.want(")")
	case t[0] == '"':
		e = &Expr{K: KLit, Name: t}
	case isName(t):
		if keywords[t] {
			p.unsure = true
		}
		e = V(t)
		if p.peek() == "==" {
			e.Val = 1 // for a name nothing is known about yet, not settled
		} else if strings.HasPrefix(p.peek(), "=") {
			e.Val = 2 // changing the code of a function: not settled
		}
	default:
		v, ok := parseConst(t)
		if !ok {
			p.fail()
		}
		e = &Expr{K: KLit, Name: t, Val: v}
	}
	for {
		switch p.peek() {
		case "[":
			p.next()
			i := p.expr(15)
			p.want("]")
			e = Idx(e, i)
		case "(":
			p.next()
			c := &Expr{K: KCall, A: e}
			for p.peek() != ")" {
				c.Args = append(c.Args, p.expr(15))
				if p.peek() == ")" {
					break
				}
				p.want(",")
				if p.peek() == ")" {
					p.fail()
				}
			}
			p.want(")")
			e = c
		case "++", "--":
			p.lvalue(e)
			if p.next() == "++" {
				e = Inc(KPostInc, e)
			} else {
				e = Inc(KPostDec, e)
			}
		default:
			return e
		}
	}
}

func (p *refParser) unary() *Expr {
	switch p.peek() {
	case "-", "!":
		return Un(p.next(), p.unary())
	case "*":
		p.next()
		return Deref(p.unary())
	case "&":
		p.next()
		e := p.unary()
		p.lvalue(e)
		return Addr(e)
	case "++", "--":
		op := p.next()
		e := p.unary()
		p.lvalue(e)
		if op == "++" {
			return Inc(KPreInc, e)
		}
		return Inc(KPreDec, e)
	}
	return p.primary()
}

var asgOps = map[string]string{"=": "", "=+": "+", "=-": "-", "=*": "*", "=/": "/", "=%": "%", "=&": "&", "=|": "|", "=<": "<", "=>": ">", "=<=": "<=", "=>=": ">=", "=<<": "<<", "=>>": ">>", "=!=": "!=", "===": "=="}

func (p *refParser) expr(level int) *Expr {
	e := p.unary()
	for {
		op := p.peek()
		if l, ok := binLevel[op]; ok && l <= level {
			p.next()
			e = Bin(op, e, p.expr(l-1))
			continue
		}
		if op == "?" && level >= 13 {
			p.next()
			b := p.expr(12)
			p.want(":")
			return Cond(e, b, p.expr(13))
		}
		if a, ok := asgOps[op]; ok && level >= 14 {
			p.lvalue(e)
			p.next()
			return Asg(a, e, p.expr(14))
		}
		return e
	}
}

func (p *refParser) stmt() *Stmt {
	switch t := p.peek(); t {
	case "{":
		p.next()
		b := Block()
		for p.peek() != "}" {
			b.List = append(b.List, p.stmt())
		}
		p.next()
		return b
	case ";":
		p.next()
		return Null()
	case "if":
		p.next()
		p.want("(")
		e := p.expr(15)
		p.want(")")
		s := p.stmt()
		if p.peek() == "else" {
			p.next()
			return If(e, s, p.stmt())
		}
		return If(e, s, nil)
	case "while":
		p.next()
		p.want("(")
		e := p.expr(15)
		p.want(")")
		return While(e, p.stmt())
	case "switch":
		p.next()
		e := p.expr(15)
		if p.peek() == "!" {
			p.unsure = true // it looks like the start of !=
		}
		return Switch(e, p.stmt())
	case "case":
		p.next()
		src := p.next()
		v, ok := parseConst(src)
		if !ok {
			p.fail()
		}
		p.want(":")
		s := CaseS(v, p.stmt())
		s.Src = src
		return s
	case "goto":
		p.next()
		n := p.name()
		p.want(";")
		return Goto(n)
	case "return":
		p.next()
		if p.peek() == ";" {
			p.next()
			return Return(nil)
		}
		p.want("(")
		e := p.expr(15)
		p.want(")")
		p.want(";")
		return Return(e)
	case "auto", "extrn":
		p.next()
		s := &Stmt{K: SAuto}
		if t == "extrn" {
			s.K = SExtrn
		}
		for {
			d := Decl{Name: p.name()}
			if t == "auto" && p.peek() == "[" {
				p.next()
				d.Vec = true
				if p.peek() != "]" {
					d.Src = p.next()
					v, ok := parseConst(d.Src)
					if !ok {
						p.fail()
					}
					d.Size = v
				} else {
					d.Src = ""
				}
				p.want("]")
			}
			s.Decls = append(s.Decls, d)
			if p.peek() == ";" {
				p.next()
				return s
			}
			p.want(",")
		}
	}
	if t := p.peek(); t != "" && isIdent(t[0]) && !(t[0] >= '0' && t[0] <= '9') && p.i+1 < len(p.t) && p.t[p.i+1] == ":" {
		n := p.name()
		p.next()
		return Label(n, p.stmt())
	}
	e := p.expr(15)
	p.want(";")
	return Ex(e)
}

// parseUnit parses a whole program, or reports that it is not one.
func parseUnit(src string) (u *Unit, err error) {
	u, _, err = parseUnitX(src)
	return
}

// parseUnitX tells in addition whether the text uses something the language
// does not settle.
func parseUnitX(src string) (u *Unit, unsure bool, err error) {
	t, err := tokenize(src)
	if err != nil {
		return nil, false, err
	}
	return parseTokens(t)
}

func parseTokens(t []string) (u *Unit, unsure bool, err error) {
	defer func() {
		if e := recover(); e != nil {
			if e == errSyntax {
				u, err = nil, errSyntax
				return
			}
			panic(e)
		}
	}()
	p := &refParser{t: t, funcs: map[string]bool{}}
	u = &Unit{}
	for p.i < len(p.t) {
		n := p.name()
		switch p.peek() {
		case "(":
			p.next()
			f := &Func{Name: n}
			if p.peek() != ")" {
				for {
					f.Params = append(f.Params, p.name())
					if p.peek() == ")" {
						break
					}
					p.want(",")
				}
			}
			p.want(")")
			f.Body = p.stmt()
			u.Order = append(u.Order, len(u.Funcs))
			u.Funcs = append(u.Funcs, f)
			continue
		}
		g := &Glob{Name: n, Size: -1}
		if p.peek() == "[" {
			p.next()
			g.Vec = true
			if p.peek() != "]" {
				g.Src = p.next()
				v, ok := parseConst(g.Src)
				if !ok {
					p.fail()
				}
				if g.Src[0] == '\'' || v < 0 || v > 1<<30 {
					p.unsure = true
				}
				g.Size = v
			}
			p.want("]")
		}
		for p.peek() != ";" {
			in := Init{}
			if p.peek() == "-" {
				p.next()
				in.Src = "-"
			}
			switch x := p.peek(); {
			case x == "," || x == ";":
				p.fail() // a value left out
			case x != "" && x[0] == '"' && in.Src == "":
				in.IsStr, in.Str = true, decodeString(p.next())
				in.Src = x
			default:
				v, ok := parseConst(p.next())
				if !ok || in.Src == "-" && x[0] == '\'' {
					p.fail()
				}
				in.Val = v
				if in.Src == "-" {
					in.Val = -v
				}
				in.Src += x
			}
			g.Inits = append(g.Inits, in)
			if p.peek() == ";" {
				break
			}
			p.want(",")
			if p.peek() == ";" {
				p.fail()
			}
		}
		p.next()
		u.Order = append(u.Order, -(len(u.Globs) + 1))
		u.Globs = append(u.Globs, g)
	}
	return u, p.unsure, nil
}

// usesAddresses tells whether values of addresses may influence e.
func usesAddresses(e *Expr) bool {
	if e == nil {
		return false
	}
	if e.K == KAddr || e.K == KDeref || e.K == KIndex || e.K == KCall && e.A.K != KVar || e.K == KLit && e.Name[0] == '"' {
		return true
	}
	for _, a := range e.Args {
		if usesAddresses(a) {
			return true
		}
	}
	if e.K != KCall && usesAddresses(e.A) {
		return true
	}
	return usesAddresses(e.B) || usesAddresses(e.C)
}
