package main

import (
	"fmt"
	"strings"
)

func init() { checks["P02"] = checkP02 }

type lvForm struct {
	name      string
	lv        func() *Expr
	home      func() *Expr // the same cell by a plain name
	pre       []*Stmt
	noPostfix bool
}

func set(a, b *Expr) *Stmt { return Ex(Asg("", a, b)) }

func lvForms() []lvForm {
	v := V
	n := Num
	vi := func(i int64) func() *Expr { return func() *Expr { return Idx(v("v"), n(i)) } }
	gi := func(i int64) func() *Expr { return func() *Expr { return Idx(v("gv#"), n(i)) } }
	nm := func(s string) func() *Expr { return func() *Expr { return v(s) } }
	f := []lvForm{
		{name: "auto", lv: nm("x"), home: nm("x")},
		{name: "auto2", lv: nm("u"), home: nm("u")},
		{name: "param1", lv: nm("a"), home: nm("a")},
		{name: "param2", lv: nm("b"), home: nm("b")},
		{name: "extern", lv: nm("g#"), home: nm("g#")},
		{name: "*p", lv: func() *Expr { return Deref(v("p")) }, home: nm("x"), noPostfix: true},
		{name: "*(p)", lv: func() *Expr { return Deref(Paren(v("p"))) }, home: nm("x"), noPostfix: true},
		{name: "v[0]", lv: vi(0), home: vi(0)},
		{name: "v[1]", lv: vi(1), home: vi(1)},
		{name: "v[i]", lv: func() *Expr { return Idx(v("v"), v("i")) }, home: vi(1)},
		{name: "v[i+1]", lv: func() *Expr { return Idx(v("v"), Bin("+", v("i"), n(1))) }, home: vi(2)},
		{name: "v[i++]", lv: func() *Expr { return Idx(v("v"), Inc(KPostInc, v("i"))) }, home: vi(1)},
		{name: "v[++i]", lv: func() *Expr { return Idx(v("v"), Inc(KPreInc, v("i"))) }, home: vi(2)},
		{name: "v[i--]", lv: func() *Expr { return Idx(v("v"), Inc(KPostDec, v("i"))) }, home: vi(1)},
		{name: "v[--i]", lv: func() *Expr { return Idx(v("v"), Inc(KPreDec, v("i"))) }, home: vi(0)},
		{name: "v[i=2]", lv: func() *Expr { return Idx(v("v"), Asg("", v("i"), n(2))) }, home: vi(2)},
		{name: "v[i=+1]", lv: func() *Expr { return Idx(v("v"), Asg("+", v("i"), n(1))) }, home: vi(2)},
		{name: "v[t(1)]", lv: func() *Expr { return Idx(v("v"), Call("t", n(1))) }, home: vi(1)},
		{name: "v[!i]", lv: func() *Expr { return Idx(v("v"), Un("!", v("i"))) }, home: vi(0)},
		{name: "v[i<2]", lv: func() *Expr { return Idx(v("v"), Bin("<", v("i"), n(2))) }, home: vi(1)},
		{name: "v[i?2:0]", lv: func() *Expr { return Idx(v("v"), Cond(v("i"), n(2), n(0))) }, home: vi(2)},
		{name: "gv[2]", lv: gi(2), home: gi(2)},
		{name: "gv[i]", lv: func() *Expr { return Idx(v("gv#"), v("i")) }, home: gi(1)},
		{name: "gv[v[0]]", lv: func() *Expr { return Idx(v("gv#"), Idx(v("v"), n(0))) }, home: gi(2), pre: []*Stmt{set(Idx(v("v"), n(0)), n(2))}},
		{name: "*v", lv: func() *Expr { return Deref(v("v")) }, home: vi(0), noPostfix: true},
		{name: "*(v+16)", lv: func() *Expr { return Deref(Paren(Bin("+", v("v"), n(16)))) }, home: vi(2), noPostfix: true},
		{name: "*(v+8*i)", lv: func() *Expr { return Deref(Paren(Bin("+", v("v"), Bin("*", n(8), v("i"))))) }, home: vi(1), noPostfix: true},
		{name: "*gv", lv: func() *Expr { return Deref(v("gv#")) }, home: gi(0), noPostfix: true},
		{name: "*&x", lv: func() *Expr { return Deref(Addr(v("x"))) }, home: nm("x"), noPostfix: true},
		{name: "*&g", lv: func() *Expr { return Deref(Addr(v("g#"))) }, home: nm("g#"), noPostfix: true},
		{name: "*&v[1]", lv: func() *Expr { return Deref(Addr(Idx(v("v"), n(1)))) }, home: vi(1), noPostfix: true},
		{name: "*&*p", lv: func() *Expr { return Deref(Addr(Deref(v("p")))) }, home: nm("x"), noPostfix: true},
		{name: "(&u)[0]", lv: func() *Expr { return Idx(Paren(Addr(v("u"))), n(0)) }, home: nm("u")},
		{name: "(&v[1])[1]", lv: func() *Expr { return Idx(Paren(Addr(Idx(v("v"), n(1)))), n(1)) }, home: vi(2)},
		{name: "(v+8)[1]", lv: func() *Expr { return Idx(Paren(Bin("+", v("v"), n(8))), n(1)) }, home: vi(2)},
		{name: "*pp", lv: func() *Expr { return Deref(v("pp")) }, home: nm("u"), noPostfix: true},
		{name: "**ppp", lv: func() *Expr { return Deref(Deref(v("ppp"))) }, home: nm("u"), noPostfix: true},
		{name: "w[0][1]", lv: func() *Expr { return Idx(Idx(v("w"), n(0)), n(1)) }, home: vi(1)},
		{name: "*w[1]", lv: func() *Expr { return Deref(Idx(v("w"), n(1))) }, home: nm("x"), noPostfix: true},
		{name: "w[i][0]", lv: func() *Expr { return Idx(Idx(v("w"), v("i")), n(0)) }, home: nm("x")},
		{name: "id(v)[1]", lv: func() *Expr { return Idx(Call("id#", v("v")), n(1)) }, home: vi(1)},
		{name: "*id(p)", lv: func() *Expr { return Deref(Call("id#", v("p"))) }, home: nm("x"), noPostfix: true},
		{name: "*id(&x)", lv: func() *Expr { return Deref(Call("id#", Addr(v("x")))) }, home: nm("x"), noPostfix: true},
		{name: "*(i?p:pp)", lv: func() *Expr { return Deref(Paren(Cond(v("i"), v("p"), v("pp")))) }, home: nm("x"), noPostfix: true},
		{name: "*(p=pp)", lv: func() *Expr { return Deref(Paren(Asg("", v("p"), v("pp")))) }, home: nm("u"), noPostfix: true, pre: nil},
		{name: "*q++", lv: func() *Expr { return Deref(Inc(KPostInc, v("q"))) }, home: vi(0), noPostfix: true},
		{name: "*--q1", lv: func() *Expr { return Deref(Inc(KPreDec, v("q1"))) }, home: vi(1), noPostfix: true},
		{name: "++x", lv: func() *Expr { return Inc(KPreInc, v("x")) }, home: nm("x"), noPostfix: true},
		{name: "--v[1]", lv: func() *Expr { return Inc(KPreDec, Idx(v("v"), n(1))) }, home: vi(1), noPostfix: true},
		{name: "++*p", lv: func() *Expr { return Inc(KPreInc, Deref(v("p"))) }, home: nm("x"), noPostfix: true},
		{name: "m", lv: nm("m#"), home: nm("m#")},
		{name: "(&m)[1]", lv: func() *Expr { return Idx(Paren(Addr(v("m#"))), n(1)) }, home: func() *Expr { return Deref(Paren(Bin("+", Addr(v("m#")), n(8)))) }},
	}
	return f
}

// p02unit wraps the statements under test: every cell gets a value of its own
// before, and all cells are reported afterwards.
func p02unit(home *Expr, pre []*Stmt, body []*Stmt) *Unit {
	v, n := V, Num
	st := []*Stmt{
		Auto(Decl{Name: "x"}, Decl{Name: "i"}, Decl{Name: "p"}, Decl{Name: "u"}, Decl{Name: "v", Vec: true, Size: 3}, Decl{Name: "y"}),
		Auto(Decl{Name: "w", Vec: true, Size: 2}, Decl{Name: "pp"}, Decl{Name: "ppp"}, Decl{Name: "q"}, Decl{Name: "q1"}),
		Extrn("g#", "gv#", "m#"),
		set(v("x"), n(11)), set(v("i"), n(1)), set(v("u"), n(31)), set(v("y"), n(32)),
		set(v("p"), Addr(v("x"))), set(v("pp"), Addr(v("u"))), set(v("ppp"), Addr(v("pp"))), set(v("q"), v("v")), set(v("q1"), Bin("+", v("v"), n(9))),
		set(Idx(v("v"), n(0)), n(21)), set(Idx(v("v"), n(1)), n(22)), set(Idx(v("v"), n(2)), n(23)),
		set(Idx(v("w"), n(0)), v("v")), set(Idx(v("w"), n(1)), Addr(v("x"))),
		set(v("g#"), n(41)), set(Idx(v("gv#"), n(0)), n(51)), set(Idx(v("gv#"), n(1)), n(52)), set(Idx(v("gv#"), n(2)), n(53)),
		set(v("m#"), n(61)), set(Idx(Paren(Addr(v("m#"))), n(1)), n(62)), set(Idx(Paren(Addr(v("m#"))), n(2)), n(63)),
	}
	st = append(st, pre...)
	st = append(st, set(home, Call("c")))
	st = append(st, body...)
	q := fn("q#", []string{"a", "b"}, st...)
	dump := func() *Stmt {
		return Ex(Call("n", n(24), v("x"), v("i"), v("u"), v("y"), v("a"), v("b"), Bin("-", v("q"), v("v")), Bin("-", v("q1"), v("v")),
			Idx(v("v"), n(0)), Idx(v("v"), n(1)), Idx(v("v"), n(2)),
			v("g#"), Idx(v("gv#"), n(0)), Idx(v("gv#"), n(1)), Idx(v("gv#"), n(2)),
			v("m#"), Idx(Paren(Addr(v("m#"))), n(1)), Idx(Paren(Addr(v("m#"))), n(2)),
			Bin("==", v("p"), Addr(v("x"))), Bin("==", v("pp"), Addr(v("u"))), Bin("==", v("ppp"), Addr(v("pp"))),
			Bin("==", Idx(v("w"), n(0)), v("v")), Bin("==", Idx(v("w"), n(1)), Addr(v("x"))), Bin("==", Addr(Idx(v("v"), n(0))), v("v"))))
	}
	q.Body.List = append(q.Body.List, dump())
	return &Unit{
		Globs: []*Glob{{Name: "g#"}, {Name: "gv#", Vec: true, Size: 3}, {Name: "m#", Inits: []Init{{Src: "1", Val: 1}, {Src: "2", Val: 2}, {Src: "3", Val: 3}}}},
		Funcs: []*Func{fn("id#", []string{"r"}, Return(v("r"))), fn("bump#", []string{"r"}, Ex(Asg("+", Deref(v("r")), n(7))), Return(n(3))), q, fn("p#", nil, Return(Call("q#", n(71), n(72))))},
	}
}

func checkP02(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "states: nodes of the reference machine over (program, old value, new value); programs are every assignment or increment operator x every lvalue form x every context, and every string of operator characters and blanks up to the stated length between two names; all cells are compared after each"
	c.Assumptions = []string{"programs whose result depends on numeric addresses, on the order of a cell's side effects inside one assignment, or on division by zero or out-of-range shifts are not used for behaviour"}
	pool := c.NewPool()
	defer pool.Close()
	ops := append([]string{""}, binOps...)
	c.RunCases(BatchOpts{MaxCases: 250, Every: Pick(c, 4, 1)}, func(yield func(*Case) bool) {
		basic := map[string]bool{"value": true, "operand": true, "twice": true, "if": true, "rhsexpr": true, "rhssame": true, "rhssamecall": true, "rhsindex": true}
		for fi, f := range lvForms() {
			type act struct {
				name string
				mk   func(r *Expr) *Expr
				asg  bool
			}
			var acts []act
			for _, op := range ops {
				op := op
				acts = append(acts, act{"=" + op, func(r *Expr) *Expr { return Asg(op, f.lv(), r) }, true})
			}
			acts = append(acts, act{"++l", func(*Expr) *Expr { return Inc(KPreInc, f.lv()) }, false}, act{"--l", func(*Expr) *Expr { return Inc(KPreDec, f.lv()) }, false})
			if !f.noPostfix {
				acts = append(acts, act{"l++", func(*Expr) *Expr { return Inc(KPostInc, f.lv()) }, false}, act{"l--", func(*Expr) *Expr { return Inc(KPostDec, f.lv()) }, false})
			}
			for _, a := range acts {
				o1 := func() *Expr { return Call("o", Num(1)) }
				type ctx struct {
					name string
					body []*Stmt
				}
				e := func() *Expr { return a.mk(o1()) }
				p := func() *Expr {
					if a.asg {
						return Paren(e())
					}
					return e()
				}
				ctxs := []ctx{
					{"stmt", []*Stmt{Ex(e())}},
					{"value", []*Stmt{tcall(e())}},
					{"chain", []*Stmt{set(V("y"), e())}},
					{"operand", []*Stmt{tcall(Bin("-", Num(100), p()))}},
					{"operandl", []*Stmt{tcall(Bin("*", p(), Num(3)))}},
					{"neg", []*Stmt{tcall(Un("-", p()))}},
					{"if", []*Stmt{If(e(), tcall(Num(1)), tcall(Num(2)))}},
					{"arg", []*Stmt{Ex(Call("n", Num(3), Num(8), e(), Num(9)))}},
					{"cond", []*Stmt{tcall(Cond(V("i"), p(), Num(4)))}},
					{"condfalse", []*Stmt{tcall(Cond(Un("!", V("i")), p(), Num(4)))}},
					{"twice", []*Stmt{Ex(e()), tcall(V("y")), Ex(e())}},
					{"ret", []*Stmt{If(Bin("==", V("a"), Num(0)), Return(e()), nil), Ex(e())}},
					{"switch", []*Stmt{Switch(e(), Block(CaseS(0, tcall(Num(1))), CaseS(2, tcall(Num(2)))))}},
				}
				if a.asg {
					ctxs = append(ctxs,
						ctx{"rhsconst", []*Stmt{Ex(a.mk(Num(2)))}},
						ctx{"rhsneg", []*Stmt{Ex(a.mk(Un("-", o1())))}},
						ctx{"rhsexpr", []*Stmt{Ex(a.mk(Bin("+", o1(), Num(1))))}},
						ctx{"rhscond", []*Stmt{Ex(a.mk(Cond(o1(), Num(2), Num(3))))}},
						ctx{"rhsasg", []*Stmt{Ex(a.mk(Asg("", V("y"), o1())))}},
						ctx{"rhspre", []*Stmt{Ex(a.mk(Inc(KPreInc, V("y"))))}},
						ctx{"rhspost", []*Stmt{Ex(a.mk(Inc(KPostDec, V("y"))))}},
						ctx{"rhsnot", []*Stmt{Ex(a.mk(Un("!", o1())))}},
						ctx{"rhsderef", []*Stmt{Ex(a.mk(Deref(Addr(V("y")))))}},
						ctx{"rhscmp", []*Stmt{Ex(a.mk(Bin("==", V("y"), o1())))}},
						ctx{"while", []*Stmt{While(Bin("<", V("y"), Num(34)), Block(Ex(Inc(KPostInc, V("y"))), Ex(e())))}},
						// the right side changes the cell itself, or what the left side is made of
						ctx{"rhssame", []*Stmt{tcall(a.mk(Paren(Asg("", f.home(), Bin("+", o1(), Num(5))))))}},
						ctx{"rhssamepre", []*Stmt{tcall(a.mk(Inc(KPreInc, f.home())))}},
						ctx{"rhssamecall", []*Stmt{tcall(a.mk(Bin("+", Call("bump#", Addr(f.home())), o1())))}},
						ctx{"rhsindex", []*Stmt{tcall(a.mk(Bin("+", Inc(KPostInc, V("i")), o1())))}},
						ctx{"rhspointer", []*Stmt{tcall(a.mk(Bin("+", Paren(Bin("==", Paren(Asg("", V("p"), V("pp"))), V("pp"))), o1())))}},
					)
				}
				for _, x := range ctxs {
					if !c.Thorough() && fi%4 != 0 && !basic[x.name] {
						continue
					}
					for _, sp := range []Spacing{Tight, Loose, Lines} {
						if sp != Tight && x.name != "value" && x.name != "rhsneg" && !c.Thorough() {
							continue
						}
						u := p02unit(f.home(), f.pre, x.body)
						dom := []int64{3, -2, 0, 62}
						if c.Thorough() {
							dom = []int64{3, -2, 0, 1, 62, 1<<63 - 1, -1 << 63}
						}
						if !yield(prog(fmt.Sprintf("%s:%s:%s:%d", f.name, a.name, x.name, sp), u, sp, dom, 3)) {
							return
						}
					}
				}
			}
		}
		// assignment chains of two operators over pairs of cells
		lv2 := []func() *Expr{func() *Expr { return V("x") }, func() *Expr { return V("g#") }, func() *Expr { return Idx(V("v"), Num(1)) }, func() *Expr { return Deref(V("pp")) }}
		for i, l1 := range lv2 {
			for j, l2 := range lv2 {
				if i == j {
					continue
				}
				for _, op1 := range ops {
					for _, op2 := range ops {
						u := p02unit(l1(), nil, []*Stmt{set(l2(), Num(5)), tcall(Asg(op1, l1(), Asg(op2, l2(), Call("o", Num(1)))))})
						if !yield(prog(fmt.Sprintf("chain:%d%d:%s:%s", i, j, op1, op2), u, Tight, []int64{3, -2, 7}, 2)) {
							return
						}
					}
				}
			}
		}
		if !p02operands(c, yield) {
			return
		}
		subscriptCases(true, yield)
	})
	if c.Stop() {
		return
	}
	c.Phase("lvalues")
	// strings of operator characters
	chars := "=+-<>!*&/|"
	maxLen := Pick(c, 4, 5)
	c.opStrings(pool, "ops:", func(emit func(string) bool) {
		put := func(s string) bool { return strings.Contains(s, "/*") || emit(s) }
		var rec func(pre string, n int, cs, post string) bool
		rec = func(s string, n int, cs, post string) bool {
			if n == 0 {
				return put(s+post) && (post == "" || strings.HasSuffix(s, " ") || put(s+" "+post))
			}
			for i := 0; i < len(cs); i++ {
				if !rec(s+cs[i:i+1], n-1, cs, post) || !rec(s+" "+cs[i:i+1], n-1, cs, post) {
					return false
				}
			}
			return true
		}
		for n := 1; n <= maxLen; n++ {
			if !rec("x", n, chars, "y") {
				return
			}
		}
		for n := 1; n <= maxLen+1; n++ {
			if !rec("", n, "-+!", "y") || !rec("x", n, "-+", "") {
				return
			}
			if !rec("3", n, "-+=", "y") || !rec("x", n, "-+=!", "3") {
				return
			}
		}
	})
}

// opStrings judges expressions over x and y given as text: the verdict against
// the reference parser, and the meaning of the accepted ones against the machine.
func (c *Ctx) opStrings(pool *Pool, key string, texts func(emit func(string) bool)) {
	type item struct {
		src  string // expression text
		want bool
		e    *Expr
	}
	wrap := func(e string) string {
		return "p#() {\nauto x, y;\nx = c();\ny = c();\nt(" + e + ");\nt(x);\nt(y);\n}\n"
	}
	var accepted []*item
	var lock = make(chan struct{}, 1)
	gen := func(yield func(*item) bool) {
		texts(func(s string) bool {
			t, err := tokenize(s + ";")
			it := &item{src: s}
			if err == nil {
				func() {
					defer func() {
						if e := recover(); e != nil && e != any(errSyntax) {
							panic(e)
						}
					}()
					p := &refParser{t: t}
					e := p.expr(15)
					p.want(";")
					it.e, it.want = e, true
				}()
			}
			return yield(it)
		})
	}
	Stream(c, pool, gen, func(it *item) Req {
		return Req{Mode: 'V', FailAt: -1, Files: [][]byte{[]byte(strings.ReplaceAll(wrap(it.src), "#", ""))}}
	}, func(it *item, v Verdict) {
		c.States.Add(1)
		c.Transitions.Add(1)
		c.Traces.Add(1)
		got := v.St == 'A'
		if got != it.want || !got && (v.St != 'R' || v.Out == "") {
			src := strings.ReplaceAll(wrap(it.src), "#", "")
			if r := c.realRun([]byte(src)); (r.Code == 0) == it.want && badEnd(r) == "" {
				return
			}
			c.Violation(key+it.src, fmt.Sprintf("the expression  %s  is %s by the language rules but the compiler answered %c %s", it.src, map[bool]string{true: "valid", false: "invalid"}[it.want], v.St, clip([]byte(v.Out))), map[string]string{"prog.b": src})
			return
		}
		if got && !usesAddresses(it.e) {
			lock <- struct{}{}
			accepted = append(accepted, it)
			<-lock
		}
	})
	c.Outcome("operator strings accepted and run", int64(len(accepted)))
	c.Phase("strings")
	c.RunCases(BatchOpts{MaxCases: 1500}, func(yield func(*Case) bool) {
		for _, it := range accepted {
			u, err := parseUnit(wrap(it.src))
			if err != nil {
				fatal("reference parser: %s", it.src)
			}
			if !yield(&Case{Key: key + it.src, Src: wrap(it.src), Unit: u, Entry: "p#", Dom: []int64{3, -2, 0, 62}, MaxCh: 2}) {
				return
			}
		}
	})
}
