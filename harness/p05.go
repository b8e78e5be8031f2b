package main

import "fmt"

func init() { checks["P05"] = checkP05 }

// wide gives n values that differ from each other in every byte.
func wide(n int) []int64 {
	var d []int64
	x := uint64(0x9e3779b97f4a7c15)
	for i := 0; i < n; i++ {
		d = append(d, int64(x))
		x = x*6364136223846793005 + 1442695040888963407
	}
	return d
}

func seqs(n int) [][]byte {
	a, b := make([]byte, n), make([]byte, n)
	for i := range a {
		a[i], b[i] = byte(i), byte(n-1-i)
	}
	return [][]byte{a, b}
}

func params(n int) []string {
	var p []string
	for i := 0; i < n; i++ {
		p = append(p, fmt.Sprintf("a%d", i))
	}
	return p
}

func checkP05(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "states: nodes of the reference machine over (program, values delivered); programs are all combinations of callee kind, number of arguments and number of parameters, all call trees up to the stated size, all modifications of every parameter, and recursion patterns"
	c.Assumptions = []string{"the value of a parameter for which no argument was given is not defined and never read"}
	maxN := Pick(c, 14, 26)
	c.Extra["bounds"] = map[string]any{"arguments and parameters": maxN, "calls per call tree": Pick(c, 4, 5)}
	c.RunCases(BatchOpts{MaxCases: 500, Levels: Pick(c, []int{0, 2}, []int{0, 1, 2, 3})}, func(yield func(*Case) bool) {
		v, n := V, Num
		o := func(i int) *Expr { return Call("o", n(int64(i))) }
		bit := []int64{0, 1}
		dom := wide(40)
		// --- numbers of arguments and parameters, kinds of callee
		type kind struct {
			name string
			mk   func(f *Func, args []*Expr) ([]*Func, []*Glob, []int)
		}
		main := func(pre []*Stmt, callee *Expr, args []*Expr) *Func {
			return fn("p#", nil, append(pre, Return(CallE(callee, args...)))...)
		}
		kinds := []kind{
			{"before", func(f *Func, a []*Expr) ([]*Func, []*Glob, []int) {
				return []*Func{f, main(nil, v("f#"), a)}, nil, nil
			}},
			{"after", func(f *Func, a []*Expr) ([]*Func, []*Glob, []int) {
				return []*Func{main(nil, v("f#"), a), f}, nil, nil
			}},
			{"twice", func(f *Func, a []*Expr) ([]*Func, []*Glob, []int) {
				// an earlier call with another number of arguments
				e := fn("e#", nil, Return(Call("f#", n(1), n(2), n(3))))
				return []*Func{e, main(nil, v("f#"), a), f}, nil, nil
			}},
			{"auto", func(f *Func, a []*Expr) ([]*Func, []*Glob, []int) {
				return []*Func{f, main([]*Stmt{Auto(Decl{Name: "x"}), set(v("x"), v("f#"))}, v("x"), a)}, nil, nil
			}},
			{"auto after", func(f *Func, a []*Expr) ([]*Func, []*Glob, []int) {
				return []*Func{main([]*Stmt{Auto(Decl{Name: "x"}), set(v("x"), v("f#"))}, v("x"), a), f}, nil, nil
			}},
			{"parameter", func(f *Func, a []*Expr) ([]*Func, []*Glob, []int) {
				return []*Func{f, fn("g#", []string{"y", "x"}, Return(CallE(v("x"), a...))), fn("p#", nil, Return(Call("g#", n(9), v("f#"))))}, nil, nil
			}},
			{"external variable", func(f *Func, a []*Expr) ([]*Func, []*Glob, []int) {
				return []*Func{f, main([]*Stmt{Extrn("X#"), set(v("X#"), v("f#"))}, v("X#"), a)}, []*Glob{{Name: "X#", Size: -1}}, nil
			}},
			{"element", func(f *Func, a []*Expr) ([]*Func, []*Glob, []int) {
				return []*Func{f, main([]*Stmt{Auto(Decl{Name: "x", Vec: true, Size: 3}), set(Idx(v("x"), n(2)), v("f#"))}, Idx(v("x"), n(2)), a)}, nil, nil
			}},
			{"dereference", func(f *Func, a []*Expr) ([]*Func, []*Glob, []int) {
				return []*Func{f, main([]*Stmt{Auto(Decl{Name: "x"}, Decl{Name: "y"}), set(v("x"), v("f#")), set(v("y"), Addr(v("x")))}, Paren(Deref(v("y"))), a)}, nil, nil
			}},
			{"result", func(f *Func, a []*Expr) ([]*Func, []*Glob, []int) {
				return []*Func{f, fn("g#", nil, Return(v("f#"))), main(nil, Paren(Call("g#")), a)}, nil, nil
			}},
			{"conditional", func(f *Func, a []*Expr) ([]*Func, []*Glob, []int) {
				return []*Func{f, fn("g#", nil, tcall(n(-5))), main(nil, Paren(Cond(n(1), v("f#"), v("g#"))), a)}, nil, nil
			}},
		}
		for _, k := range kinds {
			for na := 0; na <= maxN; na++ {
				for np := 0; np <= maxN; np++ {
					if k.name != "before" && k.name != "after" && k.name != "auto" && na != np && (na > 5 || np > 5) && (na+np)%3 != 0 {
						continue
					}
					var body []*Stmt
					for i := min(na, np) - 1; i >= 0; i-- {
						body = append(body, tcall(v(fmt.Sprintf("a%d", i))))
					}
					if np > 0 && na > 0 {
						body = append(body, Return(Bin("+", v("a0"), n(int64(np)))))
					} else {
						body = append(body, Return(n(int64(1000+np))))
					}
					f := fn("f#", params(np), body...)
					var args []*Expr
					for i := 0; i < na; i++ {
						args = append(args, o(i))
					}
					fs, gs, ord := k.mk(f, args)
					cs := prog(fmt.Sprintf("%s callee, %d arguments, %d parameters", k.name, na, np), &Unit{Funcs: fs, Globs: gs, Order: ord}, Tight, dom, na)
					cs.Only = seqs(na)
					if !yield(cs) {
						return
					}
				}
			}
		}
		// external (C) functions with any number of arguments, at every position of the value
		for na := 0; na <= maxN; na++ {
			var args, cst []*Expr
			args = append(args, n(int64(na)))
			cst = append(cst, n(int64(na)))
			for i := 0; i < na; i++ {
				args = append(args, o(i+30))
				cst = append(cst, n(dom[i]))
			}
			cs := prog(fmt.Sprintf("external function, %d arguments", na), &Unit{Funcs: []*Func{fn("p#", nil, Ex(Call("n", cst...)), Return(Call("n", args...)))}}, Tight, dom, na)
			cs.Only = seqs(na)
			if !yield(cs) {
				return
			}
		}
		// arguments that change what other arguments, or the callee, read
		for _, cell := range []string{"auto", "extern", "element"} {
			a := map[string]*Expr{"auto": v("a"), "extern": v("X#"), "element": Idx(v("w"), n(1))}[cell]
			leaves := []*Expr{a, Inc(KPostInc, a), Inc(KPreInc, a), Asg("", a, n(9)), Asg("-", a, n(3)), Call("m#", Addr(a)), Deref(v("q")), Bin("*", a, a), Cond(Inc(KPostInc, a), a, n(0)), Idx(v("u"), Inc(KPostInc, v("i")))}
			for na := 1; na <= Pick(c, 3, 4); na++ {
				idx := make([]int, na)
				var rec func(i int) bool
				rec = func(i int) bool {
					if i < na {
						for idx[i] = range leaves {
							if !rec(i + 1) {
								return false
							}
						}
						return true
					}
					var args []*Expr
					for _, k := range idx {
						args = append(args, leaves[k])
					}
					for _, callee := range []string{"f#", "x"} {
						if callee == "x" && na == 4 {
							continue
						}
						var body []*Stmt
						if cell == "extern" {
							body = append(body, Extrn("X#"))
						}
						body = append(body, Auto(Decl{Name: "a"}, Decl{Name: "i"}, Decl{Name: "q"}, Decl{Name: "x"}, Decl{Name: "w", Vec: true, Size: 2, Src: "2"}, Decl{Name: "u", Vec: true, Size: 5, Src: "5"}),
							set(a, n(5)), set(v("q"), Addr(a)), set(v("x"), v("f#")), set(Idx(v("u"), n(0)), n(70)), set(Idx(v("u"), n(1)), n(71)), set(Idx(v("u"), n(2)), n(72)), set(Idx(v("u"), n(3)), n(73)))
						body = append(body, tcall(Call(callee, args...)), tcall(v("i")), Return(a))
						m := fn("m#", []string{"x"}, set(Deref(v("x")), Bin("+", Deref(v("x")), n(10))), Return(Bin("-", Deref(v("x")), n(1))))
						ps := params(na)
						ds := []*Expr{n(int64(na))}
						for _, p := range ps {
							ds = append(ds, v(p))
						}
						f := fn("f#", ps, Ex(Call("n", ds...)), set(v(ps[0]), n(1)), Return(v(ps[na-1])))
						u := &Unit{Funcs: []*Func{m, f, fn("p#", nil, body...)}}
						if cell == "extern" {
							u.Globs = []*Glob{{Name: "X#", Size: -1}}
						}
						if !yield(prog(fmt.Sprintf("changing arguments %s %s %v", cell, callee, idx), u, Tight, bit, 0)) {
							return false
						}
					}
					return true
				}
				if !rec(0) {
					return
				}
			}
		}
		c.Phase("counts")
		// --- which value goes where: every assignment of two values to the arguments
		for np := 1; np <= Pick(c, 6, 9); np++ {
			var args []*Expr
			var body []*Stmt
			for i := 0; i < np; i++ {
				args = append(args, o(i))
				body = append(body, tcall(v(fmt.Sprintf("a%d", i))))
			}
			for _, after := range []bool{false, true} {
				fs := []*Func{fn("f#", params(np), append(body, Return(v(fmt.Sprintf("a%d", np-1))))...), fn("p#", nil, Return(Call("f#", args...)))}
				if after {
					fs[0], fs[1] = fs[1], fs[0]
				}
				if !yield(prog(fmt.Sprintf("values %d %v", np, after), &Unit{Funcs: fs}, Tight, []int64{-1, 1 << 40}, np)) {
					return
				}
			}
		}
		// --- call trees: every way to nest up to N calls of f/2, g/1, h/3 and leaves
		type callee struct {
			name  string
			arity int
		}
		cl := []callee{{"z#", 0}, {"g#", 1}, {"f#", 2}, {"h#", 3}, {"i#", 1}}
		var trees func(k int, yield func(*Expr, int) bool) bool
		var lists func(k, slots int, yield func([]*Expr, int) bool) bool
		leaf := 0
		trees = func(k int, y func(*Expr, int) bool) bool {
			if !y(nil, k) { // a leaf
				return false
			}
			if k == 0 {
				return true
			}
			for _, ce := range cl {
				ok := lists(k-1, ce.arity, func(a []*Expr, rest int) bool {
					nm := ce.name
					if nm == "i#" {
						return y(CallE(v("w"), a...), rest)
					}
					return y(Call(nm, a...), rest)
				})
				if !ok {
					return false
				}
			}
			return true
		}
		lists = func(k, slots int, y func([]*Expr, int) bool) bool {
			if slots == 0 {
				return y(nil, k)
			}
			return lists(k, slots-1, func(a []*Expr, rest int) bool {
				return trees(rest, func(e *Expr, r2 int) bool {
					return y(append(a[:len(a):len(a)], e), r2)
				})
			})
		}
		var number func(e *Expr) *Expr
		number = func(e *Expr) *Expr {
			if e == nil {
				leaf++
				return o(leaf)
			}
			x := *e
			x.Args = nil
			for _, a := range e.Args {
				x.Args = append(x.Args, number(a))
			}
			return &x
		}
		for k := 1; k <= Pick(c, 4, 5); k++ {
			id := 0
			ok := trees(k, func(e *Expr, rest int) bool {
				if rest != 0 || e == nil {
					return true
				}
				leaf = 0
				x := number(e)
				id++
				u := &Unit{Funcs: []*Func{
					fn("z#", nil, Ex(Call("t", n(100))), Return(n(7))),
					fn("g#", []string{"a"}, Ex(Call("n", n(2), n(101), v("a"))), Return(Bin("*", v("a"), n(3)))),
					fn("p#", nil, Auto(Decl{Name: "w"}), set(v("w"), v("i#")), Return(x)),
					fn("f#", []string{"a", "b"}, Ex(Call("n", n(3), n(102), v("a"), v("b"))), Return(Bin("-", v("a"), v("b")))),
					fn("h#", []string{"a", "b", "c"}, Ex(Call("n", n(4), n(103), v("a"), v("b"), v("c"))), Return(Bin("+", Bin("*", v("a"), n(100)), Bin("-", v("b"), Bin("*", n(10), v("c")))))),
					fn("i#", []string{"a"}, Ex(Call("n", n(2), n(104), v("a"))), Return(Un("-", v("a")))),
				}}
				cs := prog(fmt.Sprintf("tree %d: %s", k, x), u, Tight, dom, leaf)
				cs.Only = seqs(leaf)
				return yield(cs)
			})
			if !ok {
				return
			}
		}
		c.Phase("trees")
		p05rest(c, yield, bit)
	})
}

func p05rest(c *Ctx, yield func(*Case) bool, bit []int64) {
	v, n := V, Num
	o := func(i int) *Expr { return Call("o", n(int64(i))) }
	// --- arguments with side effects on shared state: every pair and triple
	forms := []func() *Expr{
		func() *Expr { return v("x") },
		func() *Expr { return Inc(KPostInc, v("x")) },
		func() *Expr { return Inc(KPreInc, v("x")) },
		func() *Expr { return Asg("", v("x"), n(40)) },
		func() *Expr { return Asg("+", v("x"), n(100)) },
		func() *Expr { return Call("s#") },
		func() *Expr { return Inc(KPostInc, v("X#")) },
		func() *Expr { return v("X#") },
		func() *Expr { return Cond(v("x"), Inc(KPostDec, v("x")), n(3)) },
		func() *Expr { return Call("k#", v("x")) },
		func() *Expr { return Idx(v("w"), Inc(KPostInc, v("j"))) },
		func() *Expr { return Bin("-", v("X#"), v("x")) },
	}
	mk := func(idx []int, how int) bool {
		var args []*Expr
		for _, i := range idx {
			args = append(args, forms[i]())
		}
		var rep []*Stmt
		ps := params(len(idx))
		for _, p := range ps {
			rep = append(rep, tcall(v(p)))
		}
		call := Call("f#", args...)
		pre := []*Stmt{Auto(Decl{Name: "x"}, Decl{Name: "j"}, Decl{Name: "w", Vec: true, Size: 4}, Decl{Name: "y"}), Extrn("X#")}
		for i := 0; i < 4; i++ {
			pre = append(pre, set(Idx(v("w"), n(int64(i))), n(int64(60+i))))
		}
		if how == 1 {
			pre = append(pre, set(v("y"), v("f#")))
			call = CallE(v("y"), args...)
		}
		fs := []*Func{
			fn("s#", nil, Extrn("X#"), Return(Asg("+", v("X#"), n(10)))),
			fn("k#", []string{"x"}, Ex(Inc(KPreInc, v("x"))), Return(v("x"))),
			fn("f#", ps, append(rep, Return(v(ps[len(ps)-1])))...),
			fn("p#", nil, append(pre, set(v("x"), n(5)), tcall(call), tcall(v("x")), tcall(v("j")), tcall(v("X#")))...),
		}
		if how == 2 {
			fs[2], fs[3] = fs[3], fs[2]
		}
		return yield(prog(fmt.Sprintf("effects %v %d", idx, how), &Unit{Funcs: fs, Globs: []*Glob{{Name: "X#", Size: -1, Inits: []Init{numInit(3)}}}}, Tight, bit, 0))
	}
	for i := range forms {
		for how := 0; how < 3; how++ {
			if !mk([]int{i}, how) {
				return
			}
			for j := range forms {
				if !mk([]int{i, j}, how) {
					return
				}
				for k := range forms {
					if how == 0 && (i+j+k)%Pick(c, 3, 1) == 0 && !mk([]int{i, j, k}, how) {
						return
					}
				}
			}
		}
	}
	// --- arguments that change what is called, or parts of how it is found
	callees := []struct {
		name string
		e    func() *Expr
		chg  func() []*Expr
	}{
		{"auto", func() *Expr { return v("x") }, func() []*Expr {
			return []*Expr{Asg("", v("x"), v("g#")), Asg("", Deref(Addr(v("x"))), v("g#")), Call("m#", Addr(v("x")))}
		}},
		{"external", func() *Expr { return v("X#") }, func() []*Expr { return []*Expr{Asg("", v("X#"), v("g#")), Call("m#", Addr(v("X#"))), Call("e#")} }},
		{"element", func() *Expr { return Idx(v("w"), v("j")) }, func() []*Expr {
			return []*Expr{Asg("", Idx(v("w"), n(1)), v("g#")), Inc(KPostInc, v("j")), Asg("", v("j"), n(2)), Call("m#", Addr(Idx(v("w"), n(1))))}
		}},
		{"counted element", func() *Expr { return Idx(v("w"), Inc(KPreInc, v("j"))) }, func() []*Expr {
			return []*Expr{Inc(KPostInc, v("j")), Asg("", Idx(v("w"), v("j")), v("g#")), v("j")}
		}},
		{"dereference", func() *Expr { return Paren(Deref(v("y"))) }, func() []*Expr {
			return []*Expr{Asg("", v("y"), Addr(Idx(v("w"), n(2)))), Asg("", Deref(v("y")), v("g#")), Asg("", v("x"), v("g#"))}
		}},
		{"in parentheses", func() *Expr { return Paren(v("x")) }, func() []*Expr { return []*Expr{Asg("", v("x"), v("g#")), Call("m#", Addr(v("x")))} }},
		{"conditional", func() *Expr { return Paren(Cond(v("j"), v("x"), v("X#"))) }, func() []*Expr {
			return []*Expr{Asg("", v("j"), n(0)), Asg("", v("x"), v("g#")), Call("e#")}
		}},
		{"parameter", func() *Expr { return v("a") }, func() []*Expr { return []*Expr{Asg("", v("a"), v("g#")), Call("m#", Addr(v("a")))} }},
	}
	for _, ce := range callees {
		for ci := range ce.chg() {
			for na := 1; na <= 3; na++ {
				for at := 0; at < na; at++ {
					var args []*Expr
					for i := 0; i < na; i++ {
						if i == at {
							// the change itself is not shown, its value may be an address
							args = append(args, Cond(Paren(ce.chg()[ci]), n(int64(70+i)), n(int64(80+i))))
						} else {
							args = append(args, Bin("+", o(i), n(int64(i))))
						}
					}
					ps := params(na)
					var rep []*Stmt
					for _, p := range ps {
						rep = append(rep, tcall(v(p)))
					}
					one := fn("f#", ps, append([]*Stmt{tcall(n(1001))}, append(rep, Return(n(11)))...)...)
					two := fn("g#", ps, append([]*Stmt{tcall(n(1002))}, append(rep, Return(n(22)))...)...)
					q := fn("q#", []string{"a", "b"}, Auto(Decl{Name: "x"}, Decl{Name: "y"}, Decl{Name: "j"}, Decl{Name: "w", Vec: true, Size: 3}), Extrn("X#"),
						set(v("x"), v("f#")), set(v("X#"), v("f#")), set(v("y"), Addr(v("x"))), set(v("j"), n(1)),
						set(Idx(v("w"), n(0)), v("f#")), set(Idx(v("w"), n(1)), v("f#")), set(Idx(v("w"), n(2)), v("g#")),
						tcall(CallE(ce.e(), args...)), tcall(v("j")), tcall(Bin("==", v("x"), v("g#"))), tcall(Bin("==", v("X#"), v("g#"))), tcall(Bin("==", v("a"), v("g#"))), Return(v("b")))
					u := &Unit{Globs: []*Glob{{Name: "X#", Size: -1}}, Funcs: []*Func{one, two,
						fn("m#", []string{"r"}, set(Deref(v("r")), v("g#")), Return(n(1))),
						fn("e#", nil, Extrn("X#"), set(v("X#"), v("g#")), Return(n(1))),
						q, fn("p#", nil, Return(Call("q#", v("f#"), n(5))))}}
					if !yield(prog(fmt.Sprintf("changed callee: %s, change %d, argument %d of %d", ce.name, ci, at, na), u, Tight, bit, na)) {
						return
					}
				}
			}
		}
	}
	c.Phase("effects")
	// --- changing a parameter: every parameter, every way, every callee kind; the caller keeps its values
	mods := []func(p *Expr) *Expr{
		func(p *Expr) *Expr { return Asg("", p, n(-9)) },
		func(p *Expr) *Expr { return Asg("+", p, n(7)) },
		func(p *Expr) *Expr { return Asg("<<", p, n(3)) },
		func(p *Expr) *Expr { return Inc(KPreInc, p) },
		func(p *Expr) *Expr { return Inc(KPostDec, p) },
		func(p *Expr) *Expr { return Asg("", Deref(Addr(p)), n(11)) },
		func(p *Expr) *Expr { return Asg("-", Deref(Paren(Addr(p))), n(11)) },
		func(p *Expr) *Expr { return Call("m#", Addr(p)) },
	}
	for np := 1; np <= Pick(c, 7, 12); np++ {
		for k := 0; k < np; k++ {
			for mi, md := range mods {
				for how := 0; how < 2; how++ {
					ps := params(np)
					var body, caller []*Stmt
					var ds []Decl
					var args []*Expr
					body = append(body, Ex(md(v(ps[k]))))
					for i, p := range ps {
						body = append(body, tcall(v(p)))
						ds = append(ds, Decl{Name: "q" + p})
						caller = append(caller, set(v("q"+p), n(int64(i+1)*1000)))
						args = append(args, v("q"+p))
					}
					body = append(body, Return(v(ps[k])))
					caller = append([]*Stmt{Auto(append(ds, Decl{Name: "y"})...)}, caller...)
					call := Call("f#", args...)
					if how == 1 {
						caller = append(caller, set(v("y"), v("f#")))
						call = CallE(v("y"), args...)
					}
					caller = append(caller, tcall(call), tcall(call))
					for _, p := range ps {
						caller = append(caller, tcall(v("q"+p)))
					}
					u := &Unit{Funcs: []*Func{fn("m#", []string{"p"}, Ex(Asg("+", Deref(v("p")), n(5))), Return(n(1))), fn("f#", ps, body...), fn("p#", nil, caller...)}}
					if !yield(prog(fmt.Sprintf("modify %d of %d, form %d, %d", k, np, mi, how), u, Tight, bit, 0)) {
						return
					}
				}
			}
		}
	}
	c.Phase("modify")
	// --- the value of a call in every context
	rets := []struct {
		name string
		s    []*Stmt
	}{
		{"value", []*Stmt{Return(o(9))}},
		{"none", nil},
		{"empty", []*Stmt{Return(nil)}},
		{"branch", []*Stmt{If(o(8), Return(o(9)), nil)}},
		{"else", []*Stmt{If(o(8), Return(o(9)), Return(n(4)))}},
		{"loop", []*Stmt{While(o(8), If(o(9), Return(n(6)), nil))}},
		{"switch", []*Stmt{Switch(o(8), Block(CaseS(1, Return(n(5)))))}},
		{"label", []*Stmt{If(o(8), Goto("e"), nil), Return(n(3)), Label("e", Null())}},
	}
	call := func() *Expr { return Call("f#", n(2)) }
	ctxs := []func() []*Stmt{
		func() []*Stmt { return []*Stmt{Return(call())} },
		func() []*Stmt { return []*Stmt{Ex(call()), Return(n(1))} },
		func() []*Stmt { return []*Stmt{If(call(), tcall(n(21)), tcall(n(22)))} },
		func() []*Stmt { return []*Stmt{While(call(), tcall(n(23)))} },
		func() []*Stmt {
			return []*Stmt{Switch(call(), Block(CaseS(0, tcall(n(24))), CaseS(1, tcall(n(25))), CaseS(5, tcall(n(26)))))}
		},
		func() []*Stmt { return []*Stmt{Return(Bin("-", Bin("*", n(10), call()), call()))} },
		func() []*Stmt { return []*Stmt{Return(Un("!", call()))} },
		func() []*Stmt { return []*Stmt{Return(Cond(call(), call(), n(50)))} },
		func() []*Stmt { return []*Stmt{tcall(Call("g#", call(), call()))} },
		func() []*Stmt {
			return []*Stmt{Auto(Decl{Name: "v", Vec: true, Size: 8}), set(Idx(v("v"), n(0)), n(70)), set(Idx(v("v"), n(1)), n(71)), set(Idx(v("v"), n(3)), n(73)), set(Idx(v("v"), n(4)), n(74)), set(Idx(v("v"), n(5)), n(75)), set(Idx(v("v"), n(6)), n(76)), Return(Idx(v("v"), call()))}
		},
		func() []*Stmt {
			return []*Stmt{Auto(Decl{Name: "x"}), set(v("x"), n(100)), tcall(Asg("+", v("x"), call())), tcall(v("x"))}
		},
	}
	for _, r := range rets {
		for ci, cx := range ctxs {
			for ord := 0; ord < 2; ord++ {
				fs := []*Func{fn("f#", []string{"a"}, r.s...), fn("g#", []string{"a", "b"}, Return(Bin("+", Bin("*", v("a"), n(10)), v("b")))), fn("p#", nil, cx()...)}
				if ord == 1 {
					fs[0], fs[2] = fs[2], fs[0]
				}
				if !yield(prog(fmt.Sprintf("return %s in %d, %d", r.name, ci, ord), &Unit{Funcs: fs}, Tight, bit, Pick(c, 5, 8))) {
					return
				}
			}
		}
	}
	c.Phase("contexts")
	// --- recursion
	rec := func(name string, dom []int64, ch int, fs ...*Func) bool {
		for _, ord := range [][]int{nil, {}} {
			u := &Unit{Funcs: fs}
			if ord != nil {
				for i := len(fs) - 1; i >= 0; i-- {
					u.Order = append(u.Order, i)
				}
			}
			if !yield(prog(fmt.Sprintf("recursion %s %v", name, ord != nil), u, Tight, dom, ch)) {
				return false
			}
		}
		return true
	}
	small := []int64{0, 1, 2, 3, 4, 5, 6, 7}
	fact := fn("f#", []string{"n"}, If(Bin("<=", v("n"), n(1)), Return(n(1)), nil), Return(Bin("*", v("n"), Call("f#", Bin("-", v("n"), n(1))))))
	fib := fn("f#", []string{"n"}, Return(Cond(Bin("<", v("n"), n(2)), v("n"), Bin("+", Call("f#", Bin("-", v("n"), n(1))), Call("f#", Bin("-", v("n"), n(2)))))))
	ack := fn("f#", []string{"m", "n"}, If(Un("!", v("m")), Return(Bin("+", v("n"), n(1))), nil), If(Un("!", v("n")), Return(Call("f#", Bin("-", v("m"), n(1)), n(1))), nil), Return(Call("f#", Bin("-", v("m"), n(1)), Call("f#", v("m"), Bin("-", v("n"), n(1))))))
	ev := fn("e#", []string{"n"}, Return(Cond(v("n"), Call("d#", Bin("-", v("n"), n(1))), n(1))))
	od := fn("d#", []string{"n"}, Return(Cond(v("n"), Call("e#", Bin("-", v("n"), n(1))), n(0))))
	hanoi := fn("h#", []string{"n", "a", "b", "c"}, If(v("n"), Block(Ex(Call("h#", Bin("-", v("n"), n(1)), v("a"), v("c"), v("b"))), tcall(Bin("+", Bin("*", v("a"), n(10)), v("b"))), Ex(Call("h#", Bin("-", v("n"), n(1)), v("c"), v("b"), v("a")))), nil))
	loc := fn("f#", []string{"n"}, Auto(Decl{Name: "x"}, Decl{Name: "w", Vec: true, Size: 2}), set(v("x"), Bin("*", v("n"), n(10))), set(Idx(v("w"), n(0)), v("n")), set(Idx(v("w"), n(1)), Un("-", v("n"))), If(v("n"), tcall(Call("f#", Bin("-", v("n"), n(1)))), nil), tcall(v("x")), tcall(Idx(v("w"), n(0))), tcall(Idx(v("w"), n(1))), Return(Bin("+", v("x"), v("n"))))
	par := fn("f#", []string{"n", "acc"}, While(v("n"), Block(Ex(Asg("+", v("acc"), Call("f#", Inc(KPreDec, v("n")), n(1)))))), Return(v("acc")))
	if !rec("factorial", append(small, 20, 25), 1, fact, fn("p#", nil, Return(Call("f#", Call("c"))))) ||
		!rec("fibonacci", append(small, 12), 1, fib, fn("p#", nil, Return(Call("f#", Call("c"))))) ||
		!rec("even/odd", append(small, 400), 1, ev, od, fn("p#", nil, Return(Call("e#", Call("c"))))) ||
		!rec("hanoi", []int64{0, 1, 2, 3, 4, 5, 6}, 1, hanoi, fn("p#", nil, Ex(Call("h#", Call("c"), n(1), n(2), n(3))))) ||
		!rec("locals", []int64{0, 1, 2, 5, 9}, 1, loc, fn("p#", nil, Return(Call("f#", Call("c"))))) ||
		!rec("parameter as counter", []int64{0, 1, 2, 3, 5}, 1, par, fn("p#", nil, Return(Call("f#", Call("c"), n(0))))) ||
		!rec("ackermann", []int64{0, 1, 2}, 2, ack, fn("p#", nil, Return(Call("f#", Call("c"), Call("c"))))) ||
		!rec("deep", []int64{1, 10, 100, 1000, 1900}, 1, fn("f#", []string{"n", "m"}, If(v("n"), Return(Bin("+", Call("f#", Bin("-", v("n"), n(1)), Bin("+", v("m"), n(3))), n(1))), nil), Return(v("m"))), fn("p#", nil, Return(Call("f#", Call("c"), n(0))))) {
		return
	}
	// self call with every permutation and rotation of the parameters
	for np := 2; np <= 5; np++ {
		var perms func(a []int, k int) bool
		perms = func(a []int, k int) bool {
			if k == np {
				ps := params(np)
				var args, first []*Expr
				var body []*Stmt
				for i := range ps {
					args = append(args, v(ps[a[i]]))
					first = append(first, n(int64(i*7+1)))
					body = append(body, tcall(v(ps[i])))
				}
				args = append(args, Bin("-", v("k"), n(1)))
				first = append(first, n(3))
				f := fn("f#", append(ps, "k"), append(body, If(v("k"), Return(Call("f#", args...)), nil), Return(v(ps[0])))...)
				return yield(prog(fmt.Sprintf("rotate %v", a), &Unit{Funcs: []*Func{f, fn("p#", nil, Return(Call("f#", first...)))}}, Tight, bit, 0))
			}
			for i := k; i < np; i++ {
				b := append([]int(nil), a...)
				b[k], b[i] = b[i], b[k]
				if !perms(b, k+1) {
					return false
				}
			}
			return true
		}
		a := make([]int, np)
		for i := range a {
			a[i] = i
		}
		if !perms(a, 0) {
			return
		}
	}
	// --- functions as values: tables, arguments, results, comparison
	fcount := []int{1, 2, 3, 6}
	for _, k := range fcount {
		var fs []*Func
		var tab []*Stmt
		dom := []int64{}
		for i := 0; i < k; i++ {
			nm := fmt.Sprintf("g%d_#", i)
			fs = append(fs, fn(nm, []string{"a"}, Ex(Call("n", n(2), n(int64(i+50)), v("a"))), Return(Bin("+", v("a"), n(int64(i+1))))))
			tab = append(tab, set(Idx(v("w"), n(int64(i))), v(nm)))
			dom = append(dom, int64(i))
		}
		pick := fn("k#", []string{"i"}, append([]*Stmt{Auto(Decl{Name: "w", Vec: true, Size: int64(k)})}, append(tab, Return(Idx(v("w"), v("i"))))...)...)
		app := fn("a#", []string{"f", "x"}, Return(CallE(v("f"), CallE(v("f"), v("x")))))
		main := fn("p#", nil, append(append([]*Stmt{Auto(Decl{Name: "w", Vec: true, Size: int64(k)}, Decl{Name: "x"})}, tab...),
			tcall(CallE(Idx(v("w"), Call("c")), n(10))), tcall(Call("a#", Call("k#", Call("c")), n(20))), set(v("x"), Call("k#", Call("c"))), tcall(CallE(v("x"), CallE(v("x"), n(1)))),
			tcall(Bin("==", v("x"), Idx(v("w"), n(0)))), tcall(Bin("!=", v("x"), Idx(v("w"), n(int64(k-1))))), tcall(Bin("==", v(fmt.Sprintf("g%d_#", k-1)), v("x"))))...)
		if !yield(prog(fmt.Sprintf("table %d", k), &Unit{Funcs: append(fs, pick, app, main)}, Tight, dom, 3)) {
			return
		}
		if !yield(prog(fmt.Sprintf("table first %d", k), &Unit{Funcs: append([]*Func{main, app, pick}, fs...)}, Tight, dom, 3)) {
			return
		}
	}
	if !p05names(c, yield) {
		return
	}
	c.Phase("names")
	// names: a parameter or auto that hides the function of the same name
	hide := []*Func{
		fn("g#", []string{"a"}, Return(Bin("+", v("a"), n(1)))),
		fn("f#", []string{"a"}, Return(Bin("*", v("a"), n(2)))),
		fn("h#", []string{"f#"}, Return(CallE(v("f#"), n(21)))),
		fn("i#", nil, Auto(Decl{Name: "f#"}), set(v("f#"), v("g#")), Return(CallE(v("f#"), n(31)))),
		fn("j#", nil, Return(Call("f#", n(41)))),
		fn("p#", nil, tcall(Call("h#", v("g#"))), tcall(Call("i#")), tcall(Call("j#")), tcall(Call("h#", v("f#")))),
	}
	yield(prog("hiding", &Unit{Funcs: hide}, Tight, bit, 0))
	for r := 1; r < len(hide); r++ {
		var ord []int
		for i := range hide {
			ord = append(ord, (i+r)%len(hide))
		}
		if !yield(prog(fmt.Sprintf("hiding %d", r), &Unit{Funcs: hide, Order: ord}, Tight, bit, 0)) {
			return
		}
	}
}
