package main

// The verdict the language gives on a text: 'A' accepted, 'R' rejected, '?' the
// language does not say.

type gramState struct {
	mod    map[string]byte // as in p15state
	def    map[string]bool
	fut    map[string]byte
	loc    map[string]byte
	lab    map[string]bool
	got    []string
	ver    byte
	sw     []map[int64]bool // case values of the switch bodies being read
	inBody bool
}

func gramVerdict(src string) byte {
	t, err := tokenize(src)
	if err != nil {
		return 'R'
	}
	return gramTokens(t)
}

func gramTokens(t []string) byte {
	u, unsure, err := parseTokens(t)
	if err != nil {
		return 'R'
	}
	v := gramUnit(u)
	if v == 'A' && unsure {
		return '?'
	}
	return v
}

func (s *gramState) set(v byte) {
	if s.ver == 'A' {
		s.ver = v
	}
}

// res: s variable, V vector, F function, h a variable not declared here, 0 unknown
func (s *gramState) res(n string) byte {
	switch s.loc[n] {
	case 'p', 'a':
		return 's'
	case 'A':
		return 'V'
	case 'x':
		if s.mod[n] == 'V' {
			return 'V'
		}
		return 's'
	}
	switch s.mod[n] {
	case 'F', 'f':
		return 'F'
	case 0:
		return 0
	}
	return 'h'
}

func gramUnit(u *Unit) byte {
	s := &gramState{mod: map[string]byte{}, def: map[string]bool{}, fut: map[string]byte{}, ver: 'A'}
	kind := func(g *Glob) byte {
		if g.Vec {
			return 'V'
		}
		return 'v'
	}
	for _, g := range u.Globs {
		if s.fut[g.Name] == 0 {
			s.fut[g.Name] = kind(g)
		}
	}
	for _, o := range u.Order {
		if s.ver != 'A' {
			break
		}
		var n string
		var k byte
		if o >= 0 {
			n, k = u.Funcs[o].Name, 'F'
		} else {
			n, k = u.Globs[-o-1].Name, kind(u.Globs[-o-1])
		}
		m := s.mod[n]
		isF, wasF := k == 'F', m == 'F' || m == 'f'
		switch {
		case m != 0 && isF != wasF:
			s.set('R')
		case s.def[n]:
			s.set('?')
		}
		s.mod[n], s.def[n] = k, true
		if o >= 0 {
			s.function(u.Funcs[o])
		}
	}
	return s.ver
}

func (s *gramState) function(f *Func) {
	s.loc, s.lab, s.got, s.sw, s.inBody = map[string]byte{}, map[string]bool{}, nil, nil, false
	for _, p := range f.Params {
		if s.loc[p] != 0 {
			s.set('?')
		}
		s.loc[p] = 'p'
	}
	s.stmt(f.Body, nil)
	for _, g := range s.got {
		if !s.lab[g] {
			s.set('R')
		}
	}
}

// stmt: cases are the values of the switch whose body this is directly in
func (s *gramState) stmt(t *Stmt, cases map[int64]bool) {
	if s.ver != 'A' || t == nil {
		return
	}
	switch t.K {
	case SExpr:
		s.use(t.E)
	case SBlock:
		for _, x := range t.List {
			s.stmt(x, cases)
		}
	case SIf:
		s.use(t.E)
		s.stmt(t.S, nil)
		s.stmt(t.S2, nil)
	case SWhile:
		s.use(t.E)
		s.stmt(t.S, nil)
	case SSwitch:
		s.use(t.E)
		s.stmt(t.S, map[int64]bool{})
	case SCase:
		if cases == nil || cases[t.Val] {
			s.set('R')
			return
		}
		cases[t.Val] = true
		s.stmt(t.S, cases)
	case SLabel:
		if s.lab[t.Name] {
			s.set('R')
			return
		}
		s.lab[t.Name] = true
		s.stmt(t.S, cases)
	case SGoto:
		s.got = append(s.got, t.Name)
	case SReturn:
		s.use(t.E)
	case SAuto:
		for i, d := range t.Decls {
			for _, e := range t.Decls[:i] {
				if e.Name == d.Name {
					s.set('R')
				}
			}
			switch s.loc[d.Name] {
			case 'p', 'a', 'A':
				s.set('R')
			case 'x':
				s.set('?')
			}
			if d.Vec && (d.Size < 0 || d.Size > 1<<30) {
				s.set('?')
			}
		}
		for _, d := range t.Decls {
			s.loc[d.Name] = 'a'
			if d.Vec {
				s.loc[d.Name] = 'A'
			}
		}
	case SExtrn:
		for _, d := range t.Decls {
			n := d.Name
			switch {
			case s.mod[n] == 'F' || s.mod[n] == 'f':
				s.set('R')
			case s.loc[n] != 0 && s.loc[n] != 'x':
				s.set('?')
			}
			if s.mod[n] == 0 {
				s.mod[n] = 'v'
				if f := s.fut[n]; f != 0 {
					s.mod[n] = f
				}
			}
			s.loc[n] = 'x'
		}
	}
}

// use: e is evaluated
func (s *gramState) use(e *Expr) {
	if e == nil || s.ver != 'A' {
		return
	}
	switch e.K {
	case KVar:
		switch s.res(e.Name) {
		case 'h':
			s.set('R')
		case 0:
			if e.Val != 0 {
				s.set('?')
			}
			s.mod[e.Name] = 'f'
		case 'F':
			if e.Val == 2 {
				s.set('?')
			}
		}
	case KCall:
		s.use(e.A)
		for _, a := range e.Args {
			s.use(a)
		}
	case KAsg:
		s.lval(e.A)
		s.use(e.B)
	case KPreInc, KPreDec, KPostInc, KPostDec:
		s.lval(e.A)
	case KAddr:
		if e.A.K == KVar {
			switch s.res(e.A.Name) {
			case 'F', 0:
				s.set('?')
				return
			}
		}
		s.lval(e.A)
	default:
		s.use(e.A)
		s.use(e.B)
		s.use(e.C)
	}
}

// lval: e names a cell that is changed
func (s *gramState) lval(e *Expr) {
	if e.K == KVar {
		switch s.res(e.Name) {
		case 's', 'V':
		default:
			s.set('R')
		}
		return
	}
	s.use(e)
}
