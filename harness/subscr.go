package main

// subscriptCases: subscripts and indirections whose index or pointer expression
// changes what the base denotes, read (stores false) or written to.
func subscriptCases(stores bool, yield func(*Case) bool) bool {
	n := Num
	for _, kind := range []string{"auto", "parameter", "extern", "element", "through a pointer"} {
		base := func() *Expr {
			return map[string]*Expr{"auto": V("a"), "parameter": V("r"), "extern": V("g#"), "element": Idx(V("h"), n(1)), "through a pointer": Deref(V("q"))}[kind]
		}
		changed := func() *Expr { return Paren(Asg("", base(), V("w"))) }
		sub := func(i *Expr) *Expr {
			if kind == "through a pointer" {
				return Idx(Paren(base()), i)
			}
			return Idx(base(), i)
		}
		index := []func() *Expr{
			func() *Expr { return n(1) },
			func() *Expr { return Bin("!=", changed(), n(0)) },
			func() *Expr { return Bin("==", changed(), n(0)) },
			func() *Expr { return Call("m#", Addr(base()), V("w")) },
			func() *Expr { return Bin("-", Idx(changed(), n(0)), n(19)) },
			func() *Expr { return Bin("!=", Paren(Asg("+", base(), n(8))), n(0)) },
			func() *Expr { return Bin("-", sub(n(1)), n(10)) },
			func() *Expr { return Inc(KPostInc, V("i")) },
			func() *Expr { return Cond(changed(), n(1), n(2)) },
			func() *Expr { return Bin("-", sub(Bin("!=", changed(), n(0))), n(10)) },
		}
		var exprs []*Expr
		for _, i := range index {
			if !stores {
				exprs = append(exprs, sub(i()), Bin("-", sub(i()), sub(n(0))), Bin("-", sub(n(0)), sub(i())), Bin("==", Addr(sub(i())), Addr(Idx(V("w"), n(1)))), Un("-", sub(i())), Call("d2#", sub(i()), sub(i())))
				for _, j := range index {
					exprs = append(exprs, Bin("-", sub(i()), Bin("*", n(3), sub(j()))), Cond(sub(i()), sub(j()), n(4)))
				}
				continue
			}
			exprs = append(exprs, Inc(KPreInc, sub(i())), Inc(KPostInc, sub(i())), Inc(KPreDec, sub(i())), Inc(KPostDec, sub(i())), Asg("", sub(i()), changed()), Asg("", sub(i()), base()), Asg("", base(), sub(i())), Asg("+", sub(i()), sub(n(0))), Asg("", sub(i()), Bin("!=", Call("m#", Addr(base()), V("w")), n(0))))
			for _, j := range index {
				for _, op := range []string{"", "+", "-", "<"} {
					exprs = append(exprs, Asg(op, sub(i()), sub(j())))
				}
				exprs = append(exprs, Asg("", sub(i()), Asg("", sub(j()), n(7))))
			}
		}
		for _, e := range exprs {
			var body []*Stmt
			if kind == "extern" {
				body = append(body, Extrn("g#"))
			}
			body = append(body, Auto(Decl{Name: "a"}, Decl{Name: "v", Vec: true, Size: 4, Src: "4"}, Decl{Name: "i"}, Decl{Name: "w", Vec: true, Size: 4, Src: "4"}, Decl{Name: "h", Vec: true, Size: 2, Src: "2"}, Decl{Name: "q"}, Decl{Name: "y"}))
			for k := int64(0); k < 4; k++ {
				body = append(body, set(Idx(V("v"), n(k)), n(10+k)), set(Idx(V("w"), n(k)), n(20+k)))
			}
			body = append(body, set(V("i"), n(1)), set(V("q"), Addr(V("a"))), set(base(), V("v")), set(V("y"), e))
			// a value is reported as it is, an address by what it equals
			report := func(x *Expr) *Stmt {
				return If(Bin("&", Paren(Bin("<", x, n(1000))), Paren(Bin(">", x, n(-1000)))), tcall(x), Block(tcall(Bin("==", x, V("v"))), tcall(Bin("==", x, V("w")))))
			}
			body = append(body, report(V("y")))
			for k := int64(0); k < 4; k++ {
				body = append(body, report(Idx(V("v"), n(k))), report(Idx(V("w"), n(k))))
			}
			body = append(body, tcall(V("i")), report(base()))
			m := fn("m#", []string{"x", "to"}, set(Deref(V("x")), V("to")), Return(n(1)))
			d2 := fn("d2#", []string{"x", "y"}, Return(Bin("-", V("x"), Bin("*", n(5), V("y")))))
			main := fn("p#", nil, body...)
			u := &Unit{Funcs: []*Func{m, d2, main}}
			if kind == "extern" {
				u.Globs = []*Glob{{Name: "g#", Size: -1}}
			}
			if kind == "parameter" {
				main.Name, main.Params = "b#", []string{"r"}
				u.Funcs = append(u.Funcs, fn("p#", nil, Return(Call("b#", n(0)))))
			}
			if !yield(prog("subscript:"+kind+":"+e.String(), u, Tight, []int64{0}, 0)) {
				return false
			}
		}
	}
	return true
}

// wideSubscripts: subscripts of every size against bases that lie as far away.
func wideSubscripts(yield func(*Case) bool) bool {
	n, v := Num, V
	offs := []int64{1, 15, 16, 127, 128, 129, 255, 256, 32767, 32768, 65535, 65536, 1<<24 + 1, 1<<28 - 1, 1 << 28, 1<<29 + 3, 1<<31 - 1, 1 << 31, 1<<31 + 1, 1<<32 - 1, 1 << 32, 1<<32 + 1, 1<<33 + 5, 1 << 40, 1<<56 + 1, 1<<60 - 1, 1 << 60, 1<<60 + 1, 1 << 61, 1 << 62, 1<<63 - 1}
	for _, k := range offs {
		for _, neg := range []bool{false, true} {
			for form := 0; form < 4; form++ {
				// the subscript i stands for k+i (or i-k)
				idx := func(i int64) *Expr {
					w := k + i
					if neg {
						w = i - k
					}
					num := func() *Expr {
						if w < 0 {
							return Un("-", n(-w))
						}
						return n(w)
					}
					switch {
					case w == -1<<63:
						return Lit("9223372036854775808", w)
					case form == 0 || form == 3:
						return num()
					case form == 1:
						return Bin("+", v("k"), n(i))
					}
					return Paren(Asg("", v("i"), num()))
				}
				base := func(i int64) *Expr { return Idx(v("p"), idx(i)) }
				if form == 3 {
					base = func(i int64) *Expr { return Idx(Paren(Deref(v("q"))), idx(i)) }
				}
				kk := k
				if neg {
					kk = -k
				}
				for _, where := range []string{"auto", "extern"} {
					body := []*Stmt{}
					name := "v"
					if where == "extern" {
						name = "g#"
						body = append(body, Extrn("g#"), Auto(Decl{Name: "p"}, Decl{Name: "q"}, Decl{Name: "i"}, Decl{Name: "k"}))
					} else {
						body = append(body, Auto(Decl{Name: "v", Vec: true, Size: 4, Src: "4"}, Decl{Name: "p"}, Decl{Name: "q"}, Decl{Name: "i"}, Decl{Name: "k"}))
					}
					kn := n(kk)
					if kk < 0 {
						kn = Un("-", n(-kk))
					}
					body = append(body, set(v("k"), kn), set(v("p"), Bin("-", v(name), Bin("*", n(8), v("k")))), set(v("q"), Addr(v("p"))))
					for j := int64(0); j < 4; j++ {
						body = append(body, set(Idx(v(name), n(j)), n(10+j)))
					}
					all := func() {
						for j := int64(0); j < 4; j++ {
							body = append(body, tcall(Idx(v(name), n(j))))
						}
					}
					for j := int64(0); j < 4; j++ {
						body = append(body, tcall(base(j)), tcall(Bin("-", Addr(base(j)), v(name))), tcall(Deref(Addr(base(j)))))
					}
					body = append(body, set(base(1), n(21)), Ex(Asg("+", base(2), base(1))), Ex(Inc(KPreInc, base(3))), tcall(Inc(KPostDec, base(0))), Ex(Asg("", base(0), Bin("*", base(0), n(2)))))
					all()
					u := &Unit{Funcs: []*Func{fn("p#", nil, body...)}}
					if where == "extern" {
						u.Globs = []*Glob{{Name: "g#", Vec: true, Size: 4}}
					}
					key := "wide:" + where + ":" + kn.String()
					if !yield(prog(key+":"+idx(0).String(), u, Tight, []int64{0}, 0)) {
						return false
					}
				}
			}
		}
	}
	return true
}
