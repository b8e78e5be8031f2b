package main

import (
	"fmt"
	"strings"
	"sync/atomic"
)

// State of one name while a file is translated.
type p15state struct {
	mod byte // at file level: 0 unknown, v scalar, m list of words, V vector, F function, f used as a function
	def bool // the file has defined the name
	fut byte // the kind of variable the file defines somewhere ('v' if it does not)
	loc byte // in the current function: 0 not declared, p parameter, a auto, A auto vector, x external
	lab bool // label N defined
	got bool // goto N seen
	fun bool // the current function used the name as a function
	ver byte // 'A' so far fine, 'R' rejected, '?' the language does not say
	run bool // the program can be run
}

// what the name denotes inside the current function
func (s *p15state) res() byte {
	switch s.loc {
	case 'p', 'a':
		return 's'
	case 'A':
		return 'V'
	case 'x':
		if s.mod == 'V' {
			return 'V'
		}
		return 's'
	}
	switch s.mod {
	case 'F', 'f':
		return 'F'
	case 0:
		return 0
	}
	return 'h' // a variable not declared here
}

func (s *p15state) reject() { s.ver = 'R' }
func (s *p15state) any()    { s.ver = '?' }

// item of a function body
type p15item struct {
	name string
	do   func(s *p15state)
	st   func(nm string, r byte) []*Stmt // r: what the name denotes before the item
}

func p15items() []p15item {
	v, n := V, Num
	o := v("o")
	auto := func(kind byte) func(s *p15state) {
		return func(s *p15state) {
			switch s.loc {
			case 'p', 'a', 'A':
				s.reject()
			case 'x':
				s.any()
			}
			if s.fun {
				s.run = false // one name for two things in one function: only the verdict is compared
			}
			s.loc = kind
		}
	}
	scalar := func(nm string) Decl { return Decl{Name: nm} }
	vec := func(nm string) Decl { return Decl{Name: nm, Vec: true, Size: 2, Src: "2"} }
	fill := func(nm string) []*Stmt {
		return []*Stmt{set(Idx(v(nm), n(0)), n(61)), set(Idx(v(nm), n(1)), n(62))}
	}
	// uses as a value: an unknown name is taken for a function of another file
	use := func(s *p15state) {
		switch s.res() {
		case 'h':
			s.reject()
		case 0:
			s.mod = 'f'
		}
		s.fun = s.fun || s.res() == 'F'
	}
	// uses that need a variable
	lval := func(s *p15state) {
		switch s.res() {
		case 'h', 0, 'F':
			s.reject()
		}
	}
	one := func(f func(nm string) *Stmt) func(nm string, r byte) []*Stmt {
		return func(nm string, r byte) []*Stmt { return []*Stmt{f(nm)} }
	}
	return []p15item{
		{"auto", auto('a'), one(func(nm string) *Stmt { return Auto(scalar(nm)) })},
		{"autovec", auto('A'), func(nm string, r byte) []*Stmt { return append([]*Stmt{Auto(vec(nm))}, fill(nm)...) }},
		{"extrn", func(s *p15state) {
			switch {
			case s.mod == 'F' || s.mod == 'f':
				s.reject()
			case s.loc != 0 && s.loc != 'x':
				s.any()
			}
			if s.mod == 0 {
				s.mod = s.fut
			}
			s.loc = 'x'
		}, one(func(nm string) *Stmt { return Extrn(nm) })},
		{"read", use, func(nm string, r byte) []*Stmt {
			l := []*Stmt{set(o, v(nm))}
			switch r {
			case 'V':
				return append(l, tcall(Idx(o, n(1))))
			case 's':
				return append(l, tcall(o))
			}
			return append(l, tcall(CallE(o, n(3))))
		}},
		{"assign", lval, one(func(nm string) *Stmt { return set(v(nm), n(9)) })},
		{"call", func(s *p15state) {
			switch s.res() {
			case 'V':
				s.run = false
			case 's':
			default:
				use(s)
			}
		}, func(nm string, r byte) []*Stmt {
			t := tcall(Call(nm, n(3)))
			if r == 's' {
				return []*Stmt{set(v(nm), v("hlp#")), t, set(v(nm), n(5))}
			}
			return []*Stmt{t}
		}},
		// the items above are the short list
		{"autos", auto('a'), one(func(nm string) *Stmt { return Auto(Decl{Name: "y"}, scalar(nm), Decl{Name: "z"}) })},
		{"autotwice", func(s *p15state) { s.reject() }, one(func(nm string) *Stmt { return Auto(scalar(nm), Decl{Name: "yy"}, scalar(nm)) })},
		{"autoblock", auto('a'), one(func(nm string) *Stmt { return Block(Auto(scalar(nm))) })},
		{"autoif", auto('a'), one(func(nm string) *Stmt { return If(v("o"), Auto(scalar(nm)), nil) })},
		{"extrnblock", func(s *p15state) {
			switch {
			case s.mod == 'F' || s.mod == 'f':
				s.reject()
			case s.loc != 0 && s.loc != 'x':
				s.any()
			}
			if s.mod == 0 {
				s.mod = s.fut
			}
			s.loc = 'x'
		}, one(func(nm string) *Stmt { return Block(Extrn("go#", nm)) })},
		{"value", use, one(func(nm string) *Stmt { return tcall(Bin("!=", v(nm), n(0))) })},
		{"statement", use, one(func(nm string) *Stmt { return Ex(v(nm)) })},
		{"argument", use, one(func(nm string) *Stmt { return tcall(Bin("-", v(nm), v(nm))) })},
		{"if", use, one(func(nm string) *Stmt { return If(v(nm), tcall(n(71)), tcall(n(72))) })},
		{"compare", func(s *p15state) {
			if s.res() == 0 {
				s.any()
			}
			use(s)
		}, one(func(nm string) *Stmt { return tcall(Bin("==", v(nm), n(0))) })},
		{"nested", use, one(func(nm string) *Stmt { return While(Cond(n(0), v(nm), n(0)), Null()) })},
		{"right", use, one(func(nm string) *Stmt { return Ex(Asg("+", o, Bin("*", v(nm), n(0)))) })},
		{"add", lval, one(func(nm string) *Stmt { return Ex(Asg("+", v(nm), n(8))) })},
		{"chain", lval, one(func(nm string) *Stmt { return set(o, Asg("", v(nm), n(4))) })},
		{"preinc", lval, one(func(nm string) *Stmt { return Ex(Inc(KPreInc, v(nm))) })},
		{"postdec", lval, one(func(nm string) *Stmt { return tcall(Bin("!=", Inc(KPostDec, v(nm)), n(0))) })},
		{"address", func(s *p15state) {
			if r := s.res(); r == 'F' || r == 0 {
				s.any()
			}
			use(s)
		}, func(nm string, r byte) []*Stmt {
			return []*Stmt{set(o, Addr(v(nm))), set(Deref(o), Bin("+", Deref(o), n(8)))}
		}},
		{"index", func(s *p15state) {
			if r := s.res(); r == 'F' || r == 0 {
				s.run = false
			}
			use(s)
		}, func(nm string, r byte) []*Stmt {
			if r == 's' {
				return []*Stmt{set(v(nm), v("w")), tcall(Idx(v(nm), n(1))), set(v(nm), n(5))}
			}
			return []*Stmt{tcall(Idx(v(nm), n(1)))}
		}},
		{"label", func(s *p15state) {
			if s.lab {
				s.reject()
			}
			s.lab = true
		}, one(func(nm string) *Stmt { return Label(nm, Null()) })},
		{"labels", func(s *p15state) { s.reject() }, one(func(nm string) *Stmt { return Label(nm, Block(Label(nm, Null()))) })},
		{"goto", func(s *p15state) { s.got = true }, one(func(nm string) *Stmt { return If(Bin("<", v("o"), n(-9)), Goto(nm), nil) })},
	}
}

func init() { checks["P15"] = checkP15 }

const p15short = 6

// a function of the program: whether the name is its parameter, and its items
type p15func struct {
	param bool
	items []int
}

// a top-level element: a definition of the name, or a function
type p15top struct {
	def byte // 0: function; v m V F as in p15state
	f   p15func
}

func p15name(it []p15item, tops []p15top) string {
	var b strings.Builder
	for i, t := range tops {
		if i > 0 {
			b.WriteString(" | ")
		}
		if t.def != 0 {
			b.WriteString(map[byte]string{'v': "scalar", 'm': "words", 'V': "vector", 'F': "function"}[t.def])
			continue
		}
		b.WriteString("f")
		if t.f.param {
			b.WriteString("(N)")
		}
		for _, k := range t.f.items {
			b.WriteString(" " + it[k].name)
		}
	}
	return b.String()
}

// p15build runs the model over the program: verdict, and the unit in which the
// name is spelled nm.
func p15build(it []p15item, tops []p15top, nm string, texts bool) (s p15state, u *Unit, order []int) {
	s = p15state{ver: 'A', run: true, fut: 'v'}
	for _, t := range tops {
		if t.def != 0 && t.def != 'F' {
			s.fut = t.def
			break
		}
	}
	n := Num
	u = &Unit{}
	nf := 0
	var dump []*Stmt
	for _, t := range tops {
		if t.def != 0 {
			if s.ver == 'A' {
				isF, wasF, wasV := t.def == 'F', s.mod == 'F' || s.mod == 'f', s.mod == 'v' || s.mod == 'm' || s.mod == 'V'
				switch {
				case isF && wasV || !isF && wasF:
					s.reject()
				case s.def:
					s.any() // defined twice
				}
				s.mod, s.def = t.def, true
			}
			if texts {
				order = append(order, 1)
				switch t.def {
				case 'v':
					u.Globs = append(u.Globs, &Glob{Name: nm, Size: -1, Inits: []Init{numInit(41)}})
				case 'm':
					u.Globs = append(u.Globs, &Glob{Name: nm, Size: -1, Inits: []Init{numInit(42), numInit(43)}})
				case 'V':
					u.Globs = append(u.Globs, &Glob{Name: nm, Vec: true, Size: 2, Inits: []Init{numInit(44), numInit(45)}})
				case 'F':
					order[len(order)-1] = 0
					u.Funcs = append(u.Funcs, fn(nm, []string{"a"}, Return(Bin("+", V("a"), n(50)))))
				}
			}
			continue
		}
		s.loc, s.lab, s.got, s.fun = 0, false, false, false
		if t.f.param {
			s.loc = 'p'
		}
		var body []*Stmt
		if texts {
			body = append(body, Extrn("go#"), Auto(Decl{Name: "o"}, Decl{Name: "w", Vec: true, Size: 2, Src: "2"}), set(Idx(V("w"), n(0)), n(81)), set(Idx(V("w"), n(1)), n(82)))
		}
		for _, k := range t.f.items {
			r := s.res()
			if r == 0 {
				r = 'F'
			}
			if s.ver == 'A' {
				it[k].do(&s)
			}
			if texts {
				body = append(body, it[k].st(nm, r)...)
			}
		}
		if s.ver == 'A' && s.got && !s.lab {
			s.reject()
		}
		if texts {
			switch s.res() {
			case 's':
				body = append(body, tcall(V(nm)))
			case 'V':
				body = append(body, tcall(Idx(V(nm), n(0))), tcall(Idx(V(nm), n(1))))
			}
			body = append(body, tcall(V("go#")), Ex(Inc(KPreInc, V("go#"))), Return(n(int64(nf))))
			ps := []string{"q"}
			if t.f.param {
				ps = []string{nm}
			}
			u.Funcs = append(u.Funcs, fn(fmt.Sprintf("e%d#", nf), ps, body...))
			order = append(order, 0)
			dump = append(dump, tcall(Call(fmt.Sprintf("e%d#", nf), n(int64(31+nf)))))
			switch s.mod {
			case 'v', 'm', 'V':
				// the externals in between
				dump = append(dump, Ex(Call("dmp#")))
			}
			nf++
		}
	}
	s.loc = 0
	if texts {
		u.Globs = append([]*Glob{{Name: "go#", Size: -1, Inits: []Init{numInit(3)}}}, u.Globs...)
		order = append([]int{1, 0}, order...)
		u.Funcs = append([]*Func{fn("hlp#", []string{"a"}, Return(Bin("+", V("a"), n(20))))}, u.Funcs...)
		var d []*Stmt
		d = append(d, Extrn("go#"), tcall(V("go#")))
		switch s.mod {
		case 'v':
			d = append(d, Extrn(nm), tcall(V(nm)))
		case 'm':
			d = append(d, Extrn(nm), tcall(V(nm)), Auto(Decl{Name: "o"}), set(V("o"), Addr(V(nm))), tcall(Idx(V("o"), n(1))))
		case 'V':
			d = append(d, Extrn(nm), tcall(Bin("==", V(nm), Bin("+", Addr(V(nm)), n(8)))), tcall(Idx(V(nm), n(0))), tcall(Idx(V(nm), n(1))))
			// only the words: where the data lies is not the subject
			d = append([]*Stmt{Extrn("go#"), tcall(V("go#"))}, Extrn(nm), tcall(Idx(V(nm), n(0))), tcall(Idx(V(nm), n(1))))
		}
		u.Funcs = append(u.Funcs, fn("dmp#", nil, d...))
		var body []*Stmt
		body = append(body, dump...)
		if nf > 0 {
			body = append(body, tcall(Call("e0#", n(39))), Ex(Call("dmp#")))
		}
		body = append(body, Return(n(77)))
		u.Funcs = append(u.Funcs, fn("p#", nil, body...))
		order = append(order, 0, 0)
	}
	return s, u, order
}

func checkP15(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "states: configurations of the symbol table model (what the name denotes at file level and in the current function) reached along the enumerated programs, one per prefix; every program is translated by the real front end, its verdict compared with the model's, and accepted programs are run against the reference machine to see which cell each use touched"
	c.Assumptions = []string{"an unknown name used as a value or called denotes a function of another file", "where the language does not say (a name both extrn and auto in one function, two definitions of one name) either verdict is accepted"}
	it := p15items()
	pool := c.NewPool()
	defer pool.Close()
	var accepted, rejected, unspec atomic.Int64
	type prog15 struct {
		tops []p15top
		src  []byte
		ver  byte
	}
	judge := func(name string, src []byte, want byte, v Verdict) {
		c.Transitions.Add(1)
		c.Traces.Add(1)
		if want == '?' {
			unspec.Add(1)
			if v.St == 'A' || v.St == 'R' {
				return
			}
		} else if want == 'A' {
			accepted.Add(1)
		} else {
			rejected.Add(1)
		}
		if v.St == want && (want == 'A' || strings.TrimSpace(v.Out) != "") {
			return
		}
		// confirm with the real command
		for k := 0; k < 2; k++ {
			r := c.realRun(src)
			got := byte('A')
			if r.Code != 0 {
				got = 'R'
			}
			if r.Code != 0 && r.Code != 1 {
				got = 'P'
			}
			if got == want && (got == 'A' || len(r.Err) > 0) {
				return
			}
			if k == 1 {
				c.Violation("scope:"+name, fmt.Sprintf("%s\nthe language says %s, the compiler: status %d %s\n%s", name, map[byte]string{'A': "accepted", 'R': "rejected with a diagnostic", '?': "accepted or rejected"}[want], r.Code, clip(r.Err), src), map[string]string{"program.b": string(src)})
			}
		}
	}
	verdicts := func(phase string, all func(yield func([]p15top) bool)) {
		Stream(c, pool, func(yield func(*prog15) bool) {
			all(func(tops []p15top) bool { return yield(&prog15{tops: append([]p15top(nil), tops...)}) })
		}, func(p *prog15) Req {
			s, u, order := p15build(it, p.tops, "n", true)
			p.src, p.ver = []byte(strings.ReplaceAll(p15text(u, order, Tight), "#", "")), s.ver
			return Req{Mode: 'V', FailAt: -1, Files: [][]byte{p.src}}
		}, func(p *prog15, v Verdict) {
			c.NoteDistinct(p.src)
			k := int64(1)
			for _, t := range p.tops {
				k += int64(1 + len(t.f.items))
			}
			c.States.Add(k)
			judge(p15name(it, p.tops), p.src, p.ver, v)
		})
		c.Phase(phase)
	}
	runs := func(phase string, all func(yield func([]p15top) bool)) {
		c.RunCases(BatchOpts{MaxCases: 400, MaxBytes: 200000, Levels: Pick(c, []int{0}, []int{0, 2})}, func(yield func(*Case) bool) {
			all(func(tops []p15top) bool {
				s, _, _ := p15build(it, tops, "n", false)
				if s.ver != 'A' || !s.run {
					return true
				}
				nm := "n#"
				if s.mod == 'f' {
					nm = "zz"
				}
				_, u, order := p15build(it, tops, nm, true)
				src := p15text(u, order, Tight)
				if s.mod == 'f' {
					u.Funcs = append(u.Funcs, fn("zz", []string{"a"}, Return(Bin("+", V("a"), Num(7)))))
				}
				if s.mod == 'v' && !s.def {
					u.Globs = append(u.Globs, &Glob{Name: nm, Size: -1})
				}
				return yield(&Case{Key: "scope:" + p15name(it, tops), Src: src, Unit: u, Entry: "p#", Dom: []int64{0}})
			})
		})
		c.Phase(phase)
	}
	// families of functions
	seqsOf := func(items []int, max int, params bool) []p15func {
		var out []p15func
		var rec func(cur []int)
		rec = func(cur []int) {
			out = append(out, p15func{items: append([]int(nil), cur...)})
			if params {
				out = append(out, p15func{param: true, items: append([]int(nil), cur...)})
			}
			if len(cur) == max {
				return
			}
			for _, k := range items {
				rec(append(cur, k))
			}
		}
		rec(nil)
		return out
	}
	var full, short []int
	for k := range it {
		full = append(full, k)
		if k < p15short {
			short = append(short, k)
		}
	}
	topsOf := func(fs []p15func) []p15top {
		out := []p15top{{def: 'v'}, {def: 'm'}, {def: 'V'}, {def: 'F'}}
		for _, f := range fs {
			out = append(out, p15top{f: f})
		}
		return out
	}
	product := func(lists ...[]p15top) func(yield func([]p15top) bool) {
		return func(yield func([]p15top) bool) {
			cur := make([]p15top, len(lists))
			var rec func(i int) bool
			rec = func(i int) bool {
				if i == len(lists) {
					return yield(cur)
				}
				for _, t := range lists[i] {
					cur[i] = t
					if !rec(i + 1) {
						return false
					}
				}
				return true
			}
			rec(0)
		}
	}
	one := topsOf(seqsOf(full, 1, true))
	two := topsOf(seqsOf(full, 2, true))
	three := topsOf(seqsOf(full, 3, true))
	s1 := topsOf(seqsOf(short, 1, true))
	s2 := topsOf(seqsOf(short, 2, true))
	c.Extra["bounds"] = map[string]any{"kinds of declaration and use": len(it), "top-level elements": Pick(c, 3, 4), "items in one function": 3}
	verdicts("one function", product(three))
	verdicts("pairs", product(two, Pick(c, one, two)))
	verdicts("pairs reversed", product(Pick(c, one, nil), two))
	verdicts("triples", product(Pick(c, one, two), one, one))
	verdicts("short triples", product(Pick(c, s1, s2), s2, s2))
	verdicts("quadruples", product(s1, s1, s1, Pick(c, s1, s2)))
	runs("run: one function", product(Pick(c, two, three)))
	runs("run: definition and function", product(one[:4], Pick(c, two, three)))
	runs("run: function and definition", product(Pick(c, two, three), one[:4]))
	runs("run: pairs", product(one, one))
	runs("run: long pairs", product(Pick(c, s2, two), Pick(c, s2, one)))
	runs("run: triples", product(s1, Pick(c, s1, one), one))
	runs("run: short triples", product(Pick(c, s1, s2), s1, Pick(c, s1, s2)))

	// labels and cases
	var lbl, cas atomic.Int64
	texts := func(phase string, all func(yield func(p15text2) bool)) {
		Stream(c, pool, all, func(p p15text2) Req { return Req{Mode: 'V', FailAt: -1, Files: [][]byte{[]byte(p.src)}} }, func(p p15text2, v Verdict) {
			c.NoteDistinct([]byte(p.src))
			c.States.Add(p.states)
			judge(p.name, []byte(p.src), p.ver, v)
		})
		c.Phase(phase)
	}
	texts("labels", func(yield func(p15text2) bool) { p15labels(c, func(p p15text2) bool { lbl.Add(1); return yield(p) }) })
	texts("cases", func(yield func(p15text2) bool) { p15cases(c, func(p p15text2) bool { cas.Add(1); return yield(p) }) })
	texts("lists", func(yield func(p15text2) bool) { p15lists(c, yield) })
	c.RunCases(BatchOpts{MaxCases: 60, MaxBytes: 200000, Levels: []int{0}}, func(yield func(*Case) bool) { p15long(c, yield); p15many(c, yield) })
	c.Phase("run: long names, many names")
	spelled := append(keywordLike(), plainNames...)
	for _, ext := range []bool{false, true} {
		c.RunCases(BatchOpts{MaxCases: 60, MaxBytes: 200000, Levels: []int{0}}, func(yield func(*Case) bool) { p15kinds(spelled, ext, yield) })
	}
	c.Phase("run: names of every spelling")
	c.Outcome("accepted", accepted.Load())
	c.Outcome("rejected", rejected.Load())
	c.Outcome("not specified", unspec.Load())
	c.Outcome("label programs", lbl.Load())
	c.Outcome("case programs", cas.Load())
	for _, tops := range [][]p15top{{one[0], two[60]}, {two[90], one[9]}, {one[7], one[1], one[12]}} {
		s, u, order := p15build(it, tops, "n", true)
		c.Sample(map[string]any{"program": p15name(it, tops), "text": strings.ReplaceAll(p15text(u, order, Tight), "#", ""), "model": string(s.ver)})
	}
}

// p15text prints the definitions in order: 1 takes the next external, 0 the next function.
func p15text(u *Unit, order []int, sp Spacing) string {
	var toks []string
	g, f := 0, 0
	for _, k := range order {
		if k == 1 {
			u.Globs[g].tokens(&toks)
			g++
		} else {
			u.Funcs[f].tokens(&toks)
			f++
		}
	}
	return Join(toks, sp)
}

type p15text2 struct {
	name, src string
	ver       byte
	states    int64
}

// p15labels: every sequence of label definitions and jumps over two names in
// up to two functions, flat and inside every construct.
func p15labels(c *Ctx, yield func(p15text2) bool) {
	type li struct {
		text     string
		def, use string // names defined and used, one letter each
	}
	items := []li{
		{"L:;", "L", ""}, {"M:;", "M", ""}, {"goto L;", "", "L"}, {"goto M;", "", "M"},
		{"L:M:;", "LM", ""}, {"{L:;}", "L", ""}, {"{goto M;}", "", "M"}, {"if(x)L:;", "L", ""}, {"if(x)goto L;else M:;", "M", "L"},
		{"while(x)L:x=0;", "L", ""}, {"while(x){goto M;}", "", "M"}, {"switch(x){case 1:L:;}", "L", ""}, {"switch(x){M:case 2:;goto L;}", "M", "L"},
		{"L:goto L;", "L", "L"}, {"L:L:;", "LL", ""}, {"if(x);else{L:;}", "L", ""}, {"return;", "", ""}, {"auto L;L=1;", "l", ""},
	}
	check := func(seqs ...[]int) (byte, bool) {
		ver := byte('A')
		for _, s := range seqs {
			def, use := "", ""
			for _, k := range s {
				def += items[k].def
				use += items[k].use
			}
			for _, n := range "LMl" {
				if strings.Count(def, string(n)) > 1 {
					ver = 'R'
				}
			}
			for _, n := range use {
				if !strings.ContainsRune(def, n) {
					ver = 'R'
				}
			}
		}
		return ver, true
	}
	emit := func(seqs ...[]int) bool {
		var b strings.Builder
		n := int64(0)
		for i, s := range seqs {
			fmt.Fprintf(&b, "f%d(x){", i)
			for _, k := range s {
				b.WriteString(items[k].text)
			}
			b.WriteString("}\n")
			n += int64(len(s)) + 1
		}
		ver, _ := check(seqs...)
		return yield(p15text2{"labels " + strings.TrimSpace(b.String()), b.String(), ver, n})
	}
	var all func(n, min int, f func([]int) bool) bool
	all = func(n, min int, f func([]int) bool) bool {
		for l := min; l <= n; l++ {
			cur := make([]int, l)
			var rec func(i int) bool
			rec = func(i int) bool {
				if i == l {
					return f(append([]int(nil), cur...))
				}
				for k := range items {
					cur[i] = k
					if !rec(i + 1) {
						return false
					}
				}
				return true
			}
			if !rec(0) {
				return false
			}
		}
		return true
	}
	if !all(Pick(c, 4, 5), 0, func(s []int) bool { return emit(s) }) {
		return
	}
	all(2, 0, func(a []int) bool {
		return all(Pick(c, 1, 2), 0, func(b []int) bool { return emit(a, b) })
	})
}

// p15cases: every sequence of case labels in one, two and nested switches.
func p15cases(c *Ctx, yield func(p15text2) bool) {
	type cv struct {
		text string
		val  int64
	}
	vals := []cv{{"0", 0}, {"1", 1}, {"2", 2}, {"01", 1}, {"'a'", 97}, {"97", 97}, {"0141", 97}, {"'ab'", 24930}, {"24930", 24930}, {"'*0'", 0}, {"'*e'", 0}, {"''", 0}, {"00", 0},
		{"9223372036854775807", 1<<63 - 1}, {"0777777777777777777777", 1<<63 - 1}, {"'b'", 98}, {"0142", 98}}
	n := len(vals)
	dup := func(s []int) bool {
		seen := map[int64]bool{}
		for _, k := range s {
			if seen[vals[k].val] {
				return true
			}
			seen[vals[k].val] = true
		}
		return false
	}
	emit := func(name, src string, bad bool, states int) bool {
		v := byte('A')
		if bad {
			v = 'R'
		}
		return yield(p15text2{"cases " + name, src, v, int64(states)})
	}
	shapes := []struct {
		name string
		mk   func(l []string) string
	}{
		{"flat", func(l []string) string {
			s := "switch(x){"
			for _, t := range l {
				s += "case " + t + ":y=y+1;"
			}
			return s + "}"
		}},
		{"stacked", func(l []string) string {
			s := "switch(x){"
			for _, t := range l {
				s += "case " + t + ":"
			}
			return s + ";}"
		}},
		{"blocks", func(l []string) string {
			s := "switch(x){"
			for _, t := range l {
				s += "{case " + t + ":y=1;}"
			}
			return s + "}"
		}},
		{"labels", func(l []string) string {
			s := "switch(x){"
			for i, t := range l {
				s += fmt.Sprintf("l%d:case %s:k%d:;", i, t, i)
			}
			return s + "}"
		}},
		{"single", func(l []string) string {
			s := "switch(x)"
			for _, t := range l {
				s += "case " + t + ":"
			}
			return s + "y=2;"
		}},
	}
	for _, sh := range shapes {
		for l := 1; l <= Pick(c, 3, 4); l++ {
			cur := make([]int, l)
			var rec func(i int) bool
			rec = func(i int) bool {
				if i == l {
					var t []string
					for _, k := range cur {
						t = append(t, vals[k].text)
					}
					return emit(sh.name+" "+strings.Join(t, " "), "f(x){auto y;"+sh.mk(t)+"}\n", dup(cur), l+1)
				}
				for k := 0; k < n; k++ {
					cur[i] = k
					if !rec(i + 1) {
						return false
					}
				}
				return true
			}
			if !rec(0) {
				return
			}
		}
	}
	// two switches of one function, of two functions, and one inside the other
	for a := 0; a < n; a++ {
		for b := 0; b < n; b++ {
			for d := 0; d < n; d++ {
				A, B, D := vals[a].text, vals[b].text, vals[d].text
				one := "switch(x){case " + A + ":;case " + B + ":;}"
				bad := dup([]int{a, b})
				if !emit("two "+A+" "+B+" "+D, "f(x){"+one+"switch(x){case "+D+":;}}\n", bad, 4) ||
					!emit("functions "+A+" "+B+" "+D, "f(x){"+one+"}g(x){switch(x){case "+D+":;}}\n", bad, 4) ||
					!emit("inside "+A+" "+B+" "+D, "f(x){switch(x){case "+A+":switch(x){case "+D+":;}case "+B+":;}}\n", bad, 4) ||
					!emit("inside2 "+A+" "+B+" "+D, "f(x){switch(x){case "+D+":switch(x){case "+A+":;case "+B+":;}}}\n", bad, 4) {
					return
				}
			}
			if !emit("after "+vals[a].text+" "+vals[b].text, "f(x){switch(x){case "+vals[a].text+":;}case "+vals[b].text+":;}\n", true, 3) {
				return
			}
		}
		t := vals[a].text
		for i, s := range []string{"f(x){case T:;}", "f(x){{case T:;}}", "f(x){if(x)case T:;}", "f(x){while(x)case T:;}", "f(x){if(x);else case T:;}", "f(x){L:case T:;}", "f(x)case T:;", "f(x){switch(x);case T:;}", "f(x){switch(x){}case T:;}", "f(x){switch(x)L:;case T:;}",
			"f(x){switch(x){case 5:;}while(x){case T:;}}", "f(x){switch(x){case 5:;}}g(x){case T:;}", "f(x){goto L;case T:;L:;}"} {
			if !emit(fmt.Sprintf("outside %d %s", i, t), strings.ReplaceAll(s, "T", t)+"\n", true, 2) {
				return
			}
		}
	}
}
