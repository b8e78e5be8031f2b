package main

import (
	"fmt"
	"strings"
)

func init() { checks["P04"] = checkP04 }

func numInit(v int64) Init { return Init{Src: fmt.Sprint(v), Val: v} }

// dumpWords reports words [0,n) of the vector, at most 8 per call.
func dumpWords(get func(i int64) *Expr, n int64) []*Stmt {
	var out []*Stmt
	for i := int64(0); i < n; i += 8 {
		a := []*Expr{Num(min(8, n-i))}
		for k := i; k < n && k < i+8; k++ {
			a = append(a, get(k))
		}
		out = append(out, Ex(Call("n", a...)))
	}
	return out
}

func checkP04(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "states: nodes of the reference machine over (declarations, accesses, choices); programs are all declaration lists up to the stated size with every word read, written and read again, sweeps over sizes, initializer counts, places of declaration and recursion depths"
	c.Assumptions = []string{"initial contents of automatic vectors are undefined and never compared"}
	ids := []string{"A#", "B#", "C#"}
	c.RunCases(BatchOpts{MaxCases: 600, Every: Pick(c, 3, 1)}, func(yield func(*Case) bool) {
		// --- externals: every list of up to 2 (3) declarations
		var kinds []Glob
		ivals := [][]Init{nil, {numInit(5)}, {numInit(-7), numInit(8)}, {{Src: "'ab'", Val: 'a'<<8 | 'b'}, {Src: "017", Val: 15}, numInit(-1)}, {numInit(1), numInit(2), numInit(3), {Src: "-010", Val: -8}}}
		for _, iv := range ivals {
			kinds = append(kinds, Glob{Size: -1, Inits: iv})
		}
		for _, sz := range []int64{-1, 0, 1, 2, 3, 5} {
			for _, iv := range ivals {
				kinds = append(kinds, Glob{Vec: true, Size: sz, Inits: iv})
			}
		}
		words := func(g Glob) int64 {
			if g.Vec {
				return max(1, g.Size, int64(len(g.Inits)))
			}
			return max(1, int64(len(g.Inits)))
		}
		get := func(name string, g Glob) func(i int64) *Expr {
			return func(i int64) *Expr {
				if g.Vec {
					return Idx(V(name), Num(i))
				}
				if i == 0 {
					return V(name)
				}
				return Idx(Paren(Addr(V(name))), Num(i))
			}
		}
		if !wideSubscripts(yield) || !p04inits(c, yield) {
			return
		}
		var glist func(gs []Glob, depth int) bool
		useGlobs := func(gs []Glob, order string, sp Spacing) bool {
			u := &Unit{}
			var names []string
			key := ""
			for i := range gs {
				g := gs[i]
				g.Name = ids[i]
				names = append(names, g.Name)
				u.Globs = append(u.Globs, &g)
				var t []string
				g.tokens(&t)
				key += Join(t, Tight)
			}
			body := []*Stmt{Extrn(names...)}
			for i, g := range gs {
				body = append(body, dumpWords(get(ids[i], g), words(g))...)
			}
			k := int64(100)
			for i, g := range gs {
				for w := int64(0); w < words(g); w++ {
					body = append(body, set(get(ids[i], g)(w), Num(k)))
					k++
				}
			}
			for i, g := range gs {
				body = append(body, dumpWords(get(ids[i], g), words(g))...)
				if g.Vec {
					body = append(body, Ex(Call("n", Num(3), Bin("-", Addr(Idx(V(ids[i]), Num(words(g)-1))), V(ids[i])), Deref(V(ids[i])), Deref(Paren(Bin("+", V(ids[i]), Num(8*(words(g)-1))))))))
				}
			}
			// another function sees the same cells
			var other []*Stmt
			for i := len(gs) - 1; i >= 0; i-- {
				other = append(other, Extrn(ids[i]))
			}
			for i, g := range gs {
				other = append(other, dumpWords(get(ids[i], g), words(g))...)
				other = append(other, Ex(Inc(KPostInc, get(ids[i], g)(0))))
			}
			body = append(body, Ex(Call("q#")))
			for i, g := range gs {
				body = append(body, dumpWords(get(ids[i], g), words(g))...)
			}
			u.Funcs = []*Func{fn("q#", nil, other...), fn("p#", nil, body...)}
			switch order {
			case "after":
				u.Order = []int{1, 0}
				for i := range gs {
					u.Order = append(u.Order, -(i + 1))
				}
			case "between":
				u.Order = []int{0}
				for i := range gs {
					u.Order = append(u.Order, -(i + 1))
				}
				u.Order = append(u.Order, 1)
			}
			return yield(prog("externals:"+order+":"+key, u, sp, domPos, 0))
		}
		glist = func(gs []Glob, depth int) bool {
			if len(gs) > 0 {
				if !useGlobs(gs, "before", Tight) {
					return false
				}
				if len(gs) == 1 {
					for _, o := range []string{"after", "between"} {
						for _, sp := range []Spacing{Tight, Loose, Lines} {
							if !useGlobs(gs, o, sp) {
								return false
							}
						}
					}
				} else if len(gs) == 2 && (depth == 0) && !useGlobs(gs, "after", Tight) {
					return false
				}
			}
			if depth == 0 {
				return true
			}
			for _, k := range kinds {
				if len(gs) == 2 && k.Vec && k.Size != 2 {
					continue
				}
				if !glist(append(gs[:len(gs):len(gs)], k), depth-1) {
					return false
				}
			}
			return true
		}
		if !glist(nil, Pick(c, 2, 3)) {
			return
		}
		c.Phase("externals")
		// --- sizes: external vectors
		sizes := []int64{}
		for n := int64(0); n <= Pick(c, int64(70), 300); n++ {
			sizes = append(sizes, n)
		}
		for _, b := range []int64{100, 127, 255, 511, 1000, 1023, 1500, 2047, 4095, 8191, 65535} {
			for d := int64(0); d < 4; d++ {
				sizes = append(sizes, b+d)
			}
		}
		for _, n := range sizes {
			for _, k := range []int64{0, 1, 2, 3, 7, n - 1, n, n + 1} {
				if k < 0 || k > 1100 || k > 8 && n > 200 && k != n && n%4 != 0 {
					continue
				}
				g := &Glob{Name: "A#", Vec: true, Size: n}
				for i := int64(0); i < k; i++ {
					g.Inits = append(g.Inits, numInit(i*i*3-50))
				}
				b := &Glob{Name: "B#", Vec: true, Size: 2, Inits: []Init{numInit(91), numInit(92)}}
				w := words(*g)
				body := []*Stmt{Extrn("A#", "B#"), Auto(Decl{Name: "i"}, Decl{Name: "s"})}
				at := func(i int64) *Expr { return Idx(V("A#"), Num(i)) }
				probe := []int64{0, 1, k - 1, k, k + 1, w / 2, w - 2, w - 1}
				for _, i := range probe {
					if i >= 0 && i < w {
						body = append(body, tcall(at(i)))
					}
				}
				if w <= 2000 {
					body = append(body, While(Bin("<", V("i"), Num(w)), Block(Ex(Asg("+", V("s"), Bin("*", Idx(V("A#"), V("i")), Bin("+", V("i"), Num(1))))), Ex(Asg("", Idx(V("A#"), Inc(KPostInc, V("i"))), Bin("*", V("i"), Num(7)))))), tcall(V("s")),
						set(V("s"), Num(0)), set(V("i"), Num(0)), While(Bin("<", V("i"), Num(w)), Block(Ex(Asg("+", V("s"), Bin("*", Idx(V("A#"), V("i")), Bin("+", V("i"), Num(1))))), Ex(Inc(KPostInc, V("i"))))), tcall(V("s")))
				} else {
					for _, i := range probe {
						if i >= 0 && i < w {
							body = append(body, set(at(i), Num(i+7)))
						}
					}
					for _, i := range probe {
						if i >= 0 && i < w {
							body = append(body, tcall(at(i)))
						}
					}
				}
				body = append(body, tcall(Bin("-", Addr(at(w-1)), Addr(at(0)))), tcall(Idx(V("B#"), Num(0))), tcall(Idx(V("B#"), Num(1))))
				u := &Unit{Globs: []*Glob{g, b}, Funcs: []*Func{fn("p#", nil, body...)}}
				if !yield(prog(fmt.Sprintf("size %d inits %d", n, k), u, Tight, domPos, 0)) {
					return
				}
			}
		}
		// --- sizes: automatic vectors
		for _, n := range sizes {
			for _, form := range []int{0, 1, 2} {
				if form == 2 && n > 99 || n > 9000 {
					continue
				}
				w := max(n, 1)
				ds := []Decl{{Name: "lo"}, {Name: "v", Vec: true, Size: n}, {Name: "hi"}}
				if form == 1 {
					ds = []Decl{{Name: "v", Vec: true, Size: n}, {Name: "u", Vec: true, Size: n}, {Name: "lo"}, {Name: "hi"}}
				}
				if form == 2 {
					ds[1].Src = fmt.Sprintf("'%c'", rune(n))
					if n < 32 || n == 39 || n == 42 || n == 35 || n > 126 {
						continue
					}
				}
				body := []*Stmt{Auto(ds...), Auto(Decl{Name: "i"}), set(V("lo"), Num(-1)), set(V("hi"), Num(-2))}
				loop := func(s ...*Stmt) *Stmt {
					return While(Bin("<", V("i"), Num(w)), Block(append(s, Ex(Inc(KPostInc, V("i"))))...))
				}
				if w > 1500 {
					loop = func(s ...*Stmt) *Stmt {
						return While(Bin("<", V("i"), Num(w)), Block(append(s, Ex(Asg("+", V("i"), Num((w-1)/3))))...))
					}
				}
				body = append(body, loop(set(Idx(V("v"), V("i")), Bin("*", V("i"), Num(3)))))
				if form == 1 {
					body = append(body, set(V("i"), Num(0)), loop(set(Idx(V("u"), V("i")), Bin("*", V("i"), Num(5)))))
				}
				body = append(body, set(V("i"), Num(0)), loop(If(Bin("!=", Idx(V("v"), V("i")), Bin("*", V("i"), Num(3))), tcall(V("i")), nil)))
				if form == 1 {
					body = append(body, set(V("i"), Num(0)), loop(If(Bin("!=", Idx(V("u"), V("i")), Bin("*", V("i"), Num(5))), tcall(V("i")), nil)))
				}
				body = append(body, tcall(V("lo")), tcall(V("hi")), tcall(Bin("-", Addr(Idx(V("v"), Num(w-1))), V("v"))), Return(Idx(V("v"), Num(w-1))))
				u := &Unit{Funcs: []*Func{fn("p#", nil, body...)}}
				if !yield(prog(fmt.Sprintf("auto size %d form %d", n, form), u, Tight, domPos, 0)) {
					return
				}
			}
		}
		c.Phase("sizes")
		// --- automatic declarations: every list of up to 4 over kinds, split into statements in every way
		akinds := []int64{-1, 0, 1, 2, 3}
		var alist func(ds []int64, depth int) bool
		useAutos := func(ds []int64, split int, params int) bool {
			var st []*Stmt
			var cur []Decl
			names := []string{"a", "b", "e", "f", "g"}
			key := fmt.Sprint(ds, " split ", split, " params ", params)
			for i, d := range ds {
				dc := Decl{Name: names[i]}
				if d >= 0 {
					dc.Vec, dc.Size = true, d
				}
				cur = append(cur, dc)
				if split>>i&1 != 0 || i == len(ds)-1 {
					st = append(st, Auto(cur...))
					cur = nil
				}
			}
			var dump func() []*Stmt
			ps := []string{"P", "Q", "R"}[:params]
			dump = func() []*Stmt {
				var out []*Stmt
				for i, d := range ds {
					if d < 0 {
						out = append(out, tcall(V(names[i])))
					} else {
						nm := names[i]
						out = append(out, dumpWords(func(k int64) *Expr { return Idx(V(nm), Num(k)) }, max(d, 1))...)
					}
				}
				for _, p := range ps {
					out = append(out, tcall(V(p)))
				}
				return out
			}
			body := st
			for i, d := range ds {
				if d < 0 {
					body = append(body, tcall(V(names[i])))
				}
			}
			k := int64(1)
			for i, d := range ds {
				if d < 0 {
					body = append(body, set(V(names[i]), Num(k)))
					k++
				}
				for j := int64(0); d >= 0 && j < max(d, 1); j++ {
					body = append(body, set(Idx(V(names[i]), Num(j)), Num(k)))
					k++
				}
			}
			body = append(body, dump()...)
			// move the first vector's pointer and go through addresses
			body = append(body, If(Call("c"), Block(Ex(Call("q#", Num(3), Num(4), Num(5))), If(Num(0), Null(), nil)), nil))
			for i, d := range ds {
				if d >= 0 {
					body = append(body, set(Deref(V(names[i])), Num(77)), set(V(names[i]), Addr(Idx(V(names[i]), Num(max(d, 1)-1)))), tcall(Idx(V(names[i]), Num(0))), tcall(Idx(V(names[i]), Num(1-max(d, 1)))))
				} else {
					body = append(body, Ex(Asg("+", Deref(Addr(V(names[i]))), Num(500))), tcall(V(names[i])))
				}
			}
			q := fn("q#", ps, body...)
			if params == 0 {
				q.Params = nil
			}
			for i, p := range ps {
				_ = i
				q.Body.List = append(q.Body.List, tcall(V(p)))
			}
			// recursion through the choice
			u := &Unit{Funcs: []*Func{q, fn("p#", nil, Return(Call("q#", Num(3), Num(4), Num(5))))}}
			return yield(prog("autos:"+key, u, Tight, []int64{0, 1}, 2))
		}
		alist = func(ds []int64, depth int) bool {
			if len(ds) > 0 {
				for split := 0; split < 1<<(len(ds)-1); split++ {
					for params := 0; params <= 3; params++ {
						if params != (len(ds)+split)%4 && len(ds) > 2 {
							continue
						}
						if !useAutos(ds, split, params) {
							return false
						}
					}
				}
			}
			if depth == 0 {
				return true
			}
			for _, k := range akinds {
				if !alist(append(ds[:len(ds):len(ds)], k), depth-1) {
					return false
				}
			}
			return true
		}
		if !alist(nil, Pick(c, 4, 5)) {
			return
		}
		c.Phase("autos")
		p04places(c, yield)
	})
	_ = strings.Join
	// variables spelled like the names the compiler makes up
	pool := c.NewPool()
	defer pool.Close()
	c.RunCases(BatchOpts{MaxCases: 1, Levels: []int{0}}, func(y func(*Case) bool) {
		c.namesCases(pool, nameVars, []int64{0}, 0, y)
	})
	c.Phase("spelling of variables")
}

// p04places: declarations in every place, recursion, stack use, sharing.
func p04places(c *Ctx, yield func(*Case) bool) {
	v, n := V, Num
	o := func(k int) *Expr { return Call("o", n(int64(k))) }
	bit := []int64{0, 1}
	emit := func(name string, dom []int64, ch int, fs ...*Func) bool {
		return yield(prog(name, &Unit{Funcs: fs}, Tight, dom, ch))
	}
	decls := []struct {
		name string
		d    []Decl
	}{{"scalar", []Decl{{Name: "x"}}}, {"vector", []Decl{{Name: "v", Vec: true, Size: 3}}}, {"both", []Decl{{Name: "x"}, {Name: "v", Vec: true, Size: 3}}}, {"big", []Decl{{Name: "v", Vec: true, Size: 500}, {Name: "x"}}}}
	places := []struct {
		name string
		mk   func(s ...*Stmt) []*Stmt
	}{
		{"start", func(s ...*Stmt) []*Stmt { return s }},
		{"after statement", func(s ...*Stmt) []*Stmt { return append([]*Stmt{tcall(n(1))}, s...) }},
		{"block", func(s ...*Stmt) []*Stmt { return []*Stmt{Block(s...)} }},
		{"if", func(s ...*Stmt) []*Stmt { return []*Stmt{If(o(2), Block(s...), nil)} }},
		{"else", func(s ...*Stmt) []*Stmt { return []*Stmt{If(o(2), Null(), Block(s...))} }},
		{"while", func(s ...*Stmt) []*Stmt { return []*Stmt{While(o(3), Block(s...))} }},
		{"case", func(s ...*Stmt) []*Stmt { return []*Stmt{Switch(o(4), Block(CaseS(1, Block(s...))))} }},
		{"switch before case", func(s ...*Stmt) []*Stmt { return []*Stmt{Switch(o(4), Block(append(s, CaseS(1, tcall(n(5))))...))} }},
		{"label", func(s ...*Stmt) []*Stmt {
			return []*Stmt{Label("L", Null()), Block(s...), If(o(6), Goto("L"), nil)}
		}},
		{"after return", func(s ...*Stmt) []*Stmt {
			return append([]*Stmt{If(o(7), Return(n(1)), nil), Goto("M"), Label("N", Null())}, append(s, Return(n(2)), Label("M", If(o(8), Goto("N"), nil)))...)
		}},
		{"after goto", func(s ...*Stmt) []*Stmt {
			return append([]*Stmt{Goto("M")}, append(s, Label("M", Null()))...)
		}},
	}
	for _, d := range decls {
		for _, p := range places {
			hasX, hasV := d.name != "vector", d.name != "scalar"
			use := []*Stmt{Auto(d.d...)}
			if hasX {
				use = append(use, tcall(v("x")), Ex(Asg("+", v("x"), n(5))), tcall(v("x")))
			}
			if hasV {
				use = append(use, set(Idx(v("v"), n(1)), Bin("+", Call("c"), n(10))), tcall(Idx(v("v"), n(1))), set(Idx(v("v"), n(2)), n(3)), tcall(Idx(v("v"), n(2))), set(v("v"), Bin("+", v("v"), n(8))), tcall(Deref(v("v"))))
			}
			body := p.mk(use...)
			tail := []*Stmt{tcall(n(90))}
			if hasX && p.name != "after goto" {
				tail = append(tail, tcall(v("x")))
			}
			body = append(body, tail...)
			if !emit("place:"+d.name+":"+p.name, bit, 5, fn("p#", nil, body...)) {
				return
			}
			// stack use when the declaration is executed many times
			if p.name == "while" || p.name == "label" || p.name == "block" || p.name == "if" {
				inner := Block(Auto(d.d...))
				if hasV {
					inner.List = append(inner.List, set(Idx(v("v"), n(0)), v("i")))
				}
				if hasX {
					inner.List = append(inner.List, tcall(v("x")), set(v("x"), v("i")))
				}
				var s *Stmt
				switch p.name {
				case "while":
					s = inner
				case "if":
					s = If(Bin("<", v("i"), n(1000)), inner, nil)
				case "label":
					s = Block(If(Un("!", v("i")), Ex(n(0)), nil), inner)
				default:
					s = Block(Block(inner))
				}
				loop := While(Bin("<", v("i"), n(20)), Block(s, If(Call("d"), Block(tcall(Bin("-", n(0), n(7777))), Return(n(1))), nil), Ex(Inc(KPostInc, v("i")))))
				if !emit("stack:"+d.name+":"+p.name, bit, 0, fn("p#", nil, Auto(Decl{Name: "i"}), Ex(Call("d")), loop, tcall(v("i")), Return(Call("d")))) {
					return
				}
				lp := []*Stmt{Auto(Decl{Name: "i"}), Ex(Call("d")), Label("T", Null()), s, If(Call("d"), Return(n(1)), nil), If(Bin("<", Inc(KPreInc, v("i")), n(20)), Goto("T"), nil), tcall(v("i")), Return(Call("d"))}
				if !emit("stack goto:"+d.name+":"+p.name, bit, 0, fn("p#", nil, lp...)) {
					return
				}
			}
		}
	}
	// loops and calls use no stack that stays
	for i, s := range []*Stmt{Ex(Call("h#", n(1), n(2), n(3))), Ex(Call("h#", n(1))), Ex(Call("h#")), Ex(CallE(v("f"), n(4), n(5))), Ex(Call("n", n(1), Cond(v("i"), n(5), n(6)))), Block(Ex(Asg("", v("z"), Bin("+", v("i"), Call("h#", v("z"))))))} {
		if !emit(fmt.Sprintf("stack calls %d", i), bit, 0, fn("h#", []string{"a", "b"}, Auto(Decl{Name: "w", Vec: true, Size: 9}), set(Idx(v("w"), n(8)), v("a")), Return(Idx(v("w"), n(8)))),
			fn("p#", nil, Auto(Decl{Name: "i"}, Decl{Name: "f"}, Decl{Name: "z"}), set(v("f"), v("h#")), Ex(Call("d")), While(Bin("<", v("i"), n(40)), Block(s, If(Call("d"), Return(n(1)), nil), Ex(Inc(KPostInc, v("i"))))), Return(Call("d")))) {
			return
		}
	}
	// recursion: every activation has its own cells; depths and shapes
	for depth := int64(0); depth <= Pick(c, int64(12), 22); depth++ {
		for _, sz := range []int64{1, 2, 7} {
			for _, params := range []int{1, 2, 3, 6} {
				ps := []string{"k", "b", "d", "e", "f", "g"}[:params]
				var args []*Expr
				args = append(args, Bin("-", v("k"), n(1)))
				for _, p := range ps[1:] {
					args = append(args, Bin("+", v(p), v("k")))
				}
				body := []*Stmt{Auto(Decl{Name: "x"}, Decl{Name: "w", Vec: true, Size: sz}), If(v("x"), tcall(n(-99)), nil), set(v("x"), Bin("*", v("k"), n(10))), set(Idx(v("w"), n(sz-1)), Bin("+", v("k"), n(100))),
					If(Bin(">", v("k"), n(0)), Ex(Call("q#", args...)), nil)}
				sum := Bin("+", v("x"), Idx(v("w"), n(sz-1)))
				for i, p := range ps {
					sum = Bin("+", sum, Bin("*", v(p), n(int64(i+1000))))
				}
				body = append(body, tcall(sum), Return(sum))
				var first []*Expr
				for i := range ps {
					if i == 0 {
						first = append(first, n(depth))
					} else {
						first = append(first, n(int64(i*7)))
					}
				}
				if !emit(fmt.Sprintf("recursion %d %d %d", depth, sz, params), bit, 0, fn("q#", ps, body...), fn("p#", nil, Return(Call("q#", first...)))) {
					return
				}
			}
		}
	}
	// addresses of a caller's cells used by its callees, at depth
	for depth := int64(0); depth <= 6; depth++ {
		q := fn("q#", []string{"k", "p", "w"}, Auto(Decl{Name: "x"}, Decl{Name: "v", Vec: true, Size: 2}), set(v("x"), v("k")), set(Idx(v("v"), n(0)), v("k")), set(Idx(v("v"), n(1)), Bin("*", v("k"), n(2))),
			Ex(Asg("+", Deref(v("p")), v("k"))), Ex(Asg("+", Idx(v("w"), n(1)), n(1))),
			If(v("k"), Ex(Call("q#", Bin("-", v("k"), n(1)), Addr(v("x")), v("v"))), nil), Ex(Call("n", n(4), v("k"), v("x"), Idx(v("v"), n(0)), Idx(v("v"), n(1)))))
		if !emit(fmt.Sprintf("addresses %d", depth), bit, 0, q, fn("p#", nil, Auto(Decl{Name: "a"}, Decl{Name: "u", Vec: true, Size: 3}), set(Idx(v("u"), n(0)), n(5)), set(Idx(v("u"), n(1)), n(6)), set(Idx(v("u"), n(2)), n(7)), Ex(Call("q#", n(depth), Addr(v("a")), v("u"))), Ex(Call("n", n(4), v("a"), Idx(v("u"), n(0)), Idx(v("u"), n(1)), Idx(v("u"), n(2)))))) {
			return
		}
	}
	// externals keep their values between calls; every order of naming them
	gl := func() []*Glob {
		return []*Glob{{Name: "A#", Inits: []Init{numInit(1)}}, {Name: "B#", Vec: true, Size: 2, Inits: []Init{numInit(2)}}, {Name: "C#"}}
	}
	perms := [][]string{{"A#", "B#", "C#"}, {"A#", "C#", "B#"}, {"B#", "A#", "C#"}, {"B#", "C#", "A#"}, {"C#", "A#", "B#"}, {"C#", "B#", "A#"}}
	upd := []*Stmt{Ex(Asg("+", v("A#"), n(1))), Ex(Asg("+", Idx(v("B#"), n(1)), v("A#"))), Ex(Asg("", v("C#"), Bin("+", v("C#"), Idx(v("B#"), n(1)))))}
	show := Ex(Call("n", n(4), v("A#"), Idx(v("B#"), n(0)), Idx(v("B#"), n(1)), v("C#")))
	for i, p1 := range perms {
		for j, p2 := range perms {
			for form := 0; form < 4; form++ {
				ex := func(names []string) []*Stmt {
					switch form {
					case 0:
						return []*Stmt{Extrn(names...)}
					case 1:
						return []*Stmt{Extrn(names[0]), Extrn(names[1]), Extrn(names[2])}
					case 2:
						return []*Stmt{Extrn(names...), Extrn(names...)}
					}
					return []*Stmt{Extrn(names[0]), Block(Extrn(names[1:]...))}
				}
				f1 := fn("q#", nil, append(ex(p1), upd...)...)
				f2 := fn("r#", nil, append(append(ex(p2), show), upd[2], upd[0])...)
				main := fn("p#", nil, append(ex(p2), Ex(Call("q#")), show, Ex(Call("r#")), Ex(Call("q#")), show, While(Call("c"), Ex(Call("q#"))), show)...)
				for _, ord := range [][]int{nil, {0, 1, 2, -1, -2, -3}, {-3, 0, -2, 1, -1, 2}} {
					u := &Unit{Globs: gl(), Funcs: []*Func{f1, f2, main}, Order: ord}
					if !yield(prog(fmt.Sprintf("sharing %d %d %d %v", i, j, form, ord), u, Tight, bit, 3)) {
						return
					}
				}
			}
		}
	}
	// a local hides an external of the same name; functions see their own
	{
		g := []*Glob{{Name: "A#", Inits: []Init{numInit(40)}}}
		q := fn("q#", nil, Auto(Decl{Name: "A#"}), Ex(Asg("+", v("A#"), n(1))), Return(v("A#")))
		r := fn("r#", nil, Extrn("A#"), Ex(Asg("+", v("A#"), n(1))), Return(v("A#")))
		s := fn("s#", []string{"A#"}, Ex(Asg("+", v("A#"), n(1))), Return(v("A#")))
		u := &Unit{Globs: g, Funcs: []*Func{q, r, s, fn("p#", nil, tcall(Call("q#")), tcall(Call("r#")), tcall(Call("s#", n(7))), tcall(Call("q#")), tcall(Call("r#")), Extrn("A#"), tcall(v("A#")))}}
		if !yield(prog("hiding", u, Tight, bit, 0)) {
			return
		}
	}
	// subscripts, pointer arithmetic and indirection agree for all index pairs
	for sz := int64(2); sz <= 5; sz++ {
		for i := int64(0); i < sz; i++ {
			for j := int64(0); j < sz; j++ {
				for k, mk := range []func(base *Expr) *Expr{
					func(b *Expr) *Expr { return Idx(b, n(j)) },
					func(b *Expr) *Expr { return Deref(Paren(Bin("+", b, n(8*j)))) },
					func(b *Expr) *Expr { return Idx(Paren(Bin("+", b, n(8*i))), n(j-i)) },
					func(b *Expr) *Expr { return Idx(Paren(Addr(Idx(b, n(i)))), n(j-i)) },
					func(b *Expr) *Expr { return Deref(Paren(Bin("-", Addr(Idx(b, n(i))), n(8*(i-j))))) },
					func(b *Expr) *Expr { return Deref(Addr(Idx(b, Bin("-", n(i), n(i-j))))) },
				} {
					for _, b := range []string{"v", "A#"} {
						st := []*Stmt{Auto(Decl{Name: "v", Vec: true, Size: sz}), Extrn("A#")}
						for w := int64(0); w < sz; w++ {
							st = append(st, set(Idx(v("v"), n(w)), n(w+10)), set(Idx(v("A#"), n(w)), n(w+20)))
						}
						st = append(st, tcall(mk(v(b))), set(mk(v(b)), n(99)), Ex(Inc(KPreInc, mk(v(b)))))
						st = append(st, dumpWords(func(w int64) *Expr { return Idx(v("v"), n(w)) }, sz)...)
						st = append(st, dumpWords(func(w int64) *Expr { return Idx(v("A#"), n(w)) }, sz)...)
						st = append(st, tcall(Bin("-", Addr(mk(v(b))), v(b))))
						u := &Unit{Globs: []*Glob{{Name: "A#", Vec: true, Size: sz}}, Funcs: []*Func{fn("p#", nil, st...)}}
						if !yield(prog(fmt.Sprintf("agree %d %d %d %d %s", sz, i, j, k, b), u, Tight, bit, 0)) {
							return
						}
					}
				}
			}
		}
	}
	// many variables in one function, many externals
	for _, cnt := range []int{10, 33, 64, 100} {
		var ds []Decl
		var st []*Stmt
		for i := 0; i < cnt; i++ {
			ds = append(ds, Decl{Name: fmt.Sprintf("x%d", i), Vec: i%5 == 4, Size: 2})
		}
		st = append(st, Auto(ds...))
		at := func(i int) *Expr {
			if i%5 == 4 {
				return Idx(v(fmt.Sprintf("x%d", i)), n(1))
			}
			return v(fmt.Sprintf("x%d", i))
		}
		sum := n(0)
		for i := 0; i < cnt; i++ {
			if i%5 != 4 {
				sum = Bin("+", sum, at(i))
			}
		}
		st = append(st, tcall(sum))
		for i := 0; i < cnt; i++ {
			st = append(st, set(at(i), n(int64(i*3+1))))
		}
		for i := 0; i < cnt && i < 90; i++ {
			st = append(st, tcall(at(i)))
		}
		if !emit(fmt.Sprintf("many autos %d", cnt), bit, 0, fn("p#", nil, st...)) {
			return
		}
	}
}
