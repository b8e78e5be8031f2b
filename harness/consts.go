package main

import (
	"fmt"
	"strings"
)

// Constants and names in every place: a translator that treats one value or one
// spelling differently from the others is right on everything else.

// wordConsts are constant operands with their own source form.
func wordConsts() []*Expr {
	n := Num
	l := []*Expr{}
	for _, v := range []int64{0, 1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 15, 16, 24, 31, 32, 33, 60, 63, 64, 100, 127, 128, 255, 256, 1000, 1023, 1024, 4096, 32767, 32768, 65535, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1 << 33, 1 << 62, 1<<63 - 1} {
		l = append(l, n(v))
	}
	return append(l,
		Lit("9223372036854775808", -1<<63), Lit("18446744073709551615", -1), Lit("00", 0), Lit("010", 8), Lit("0177", 127),
		Lit("'a'", 'a'), Lit("'*0'", 0), Lit("''", 0), Lit("'ab'", 'a'<<8|'b'), Lit("'*n'", 10), Lit("'a*0'", 'a'<<8),
		n(-1), n(-2), n(-8), n(-1<<31), n(-1<<63+1), Un("-", n(0)), Un("!", n(0)), Un("!", n(1)), Un("!", n(6)), Un("!", Un("!", n(2))), Un("-", Un("-", n(2))),
		Paren(n(0)), Paren(n(2)), Bin("-", n(1), n(1)), Bin("-", n(3), n(1)), Bin("&", n(2), n(1)), Bin("<<", n(1), n(33)), Bin("==", n(2), n(2)), Cond(n(2), n(0), n(4)), Cond(n(0), n(0), n(4)))
}

// p01consts: operators over constants in every position.
func p01consts(c *Ctx, yield func(*Case) bool) bool {
	ret := func(part string, e *Expr, k int, dom []int64) bool {
		return yield(prog(part+":"+e.String(), &Unit{Funcs: []*Func{fn("p#", nil, Return(e))}}, Tight, dom, k))
	}
	ks := wordConsts()
	d := []int64{0, 1, 2, 7, -1, -8, 1 << 33}
	for _, k := range ks {
		for _, e := range []*Expr{k, Un("-", k), Un("!", k), Un("-", Un("!", k)), Un("!", Un("-", k)), Un("!", Un("!", k)), Cond(k, Num(11), Num(12)), Cond(Un("!", k), Num(11), Num(12)), Cond(Num(2), k, Num(5)), Cond(Num(0), Num(5), k), Paren(Paren(k))} {
			if !ret("constant", e, 0, domPos) {
				return false
			}
		}
		for _, e := range []*Expr{Cond(k, oLeaf(0), oLeaf(1)), Cond(oLeaf(0), k, oLeaf(1)), Cond(oLeaf(0), oLeaf(1), k), Cond(oLeaf(0), k, k), Cond(k, Cond(k, oLeaf(0), oLeaf(1)), Num(9))} {
			if !ret("constant arm", e, 2, []int64{0, 5, -1}) {
				return false
			}
		}
		for _, op := range binOps {
			for _, e := range []*Expr{Bin(op, oLeaf(0), k), Bin(op, k, oLeaf(0)), Un("-", Paren(Bin(op, oLeaf(0), k))), Un("!", Paren(Bin(op, oLeaf(0), k))), Bin(op, Un("-", oLeaf(0)), k), Cond(Bin(op, oLeaf(0), k), Num(3), Num(4))} {
				if !ret("constant operand", e, 1, d) {
					return false
				}
			}
		}
	}
	// every small tree with every subset of its leaves made constant
	vals := []int64{0, 1, 2}
	for n := 1; n <= 2; n++ {
		ops := allOps(binOps, []string{"-", "!"}, true)
		if n == 2 && !c.Thorough() {
			ops = allOps([]string{"*", "/", "+", "-", "<<", "<", "==", "!=", "&", "|"}, []string{"-", "!"}, true)
		}
		if !trees(n, ops, func(t *Expr) bool {
			_, k := filled(t, oLeaf)
			for m := 1; m < 1<<k; m++ {
				nc := 0
				for i := 0; i < k; i++ {
					nc += m >> i & 1
				}
				idx := make([]int, nc)
				for {
					j, h := 0, 0
					e, _ := filled(t, func(i int) *Expr {
						if m>>i&1 == 1 {
							j++
							return Num(vals[idx[j-1]])
						}
						h++
						return oLeaf(i)
					})
					if nc <= 2 || c.Thorough() || idx[0] != 1 {
						dd := []int64{0, 1, -6}
						if h > 2 {
							dd = []int64{0, 5}
						}
						if !ret("partly constant", e, h, dd) {
							return false
						}
					}
					q := 0
					for q < nc {
						idx[q]++
						if idx[q] < len(vals) {
							break
						}
						idx[q] = 0
						q++
					}
					if q == nc {
						break
					}
				}
			}
			return true
		}) {
			return false
		}
	}
	return true
}

// p02operands: what stands to the right of an assignment operator.
func p02operands(c *Ctx, yield func(*Case) bool) bool {
	ks := wordConsts()
	few := []*Expr{Num(0), Num(1), Num(2), Num(8), Num(-1), Lit("'a'", 'a'), Num(1 << 62)}
	full := map[string]bool{"auto": true, "param2": true, "extern": true, "v[1]": true, "*p": true, "++x": true}
	dom := []int64{3, -2, 0, 1 << 62, -1 << 63, -7}
	for _, f := range lvForms() {
		list := few
		if full[f.name] || c.Thorough() {
			list = ks
		}
		rs := append([]*Expr{}, list...)
		rs = append(rs, f.home(), V("y"), V("b"), V("u"), V("g#"), Idx(V("v"), Num(0)), Idx(V("v"), Num(1)), Deref(V("p")), V("m#"), Call("id#", V("y")), Un("-", V("y")), Un("!", V("y")), Bin("+", f.home(), Num(1)), Bin("-", Num(1), f.home()), Un("-", f.home()), Un("!", f.home()), Cond(f.home(), Num(2), Num(0)))
		for _, op := range append([]string{""}, binOps...) {
			for ri, r := range rs {
				for ci, body := range [][]*Stmt{{Ex(Asg(op, f.lv(), r))}, {tcall(Asg(op, f.lv(), r))}} {
					if ci == 0 && !full[f.name] && ri >= len(list) {
						continue
					}
					if !yield(prog(fmt.Sprintf("operand:%s:%s:%s:%d", f.name, op, r, ci), p02unit(f.home(), f.pre, body), Tight, dom, 1)) {
						return false
					}
				}
			}
		}
	}
	// every sequence of two assignments to one cell with constants
	for _, f := range lvForms() {
		if !full[f.name] || f.name == "++x" {
			continue
		}
		ops := append([]string{""}, binOps...)
		for _, o1 := range ops {
			for _, o2 := range ops {
				for k := 0; k < 4; k++ {
					a, b := Num(int64(k%2)), Num(int64(1+k/2))
					if !yield(prog(fmt.Sprintf("pair:%s:%s:%s:%d", f.name, o1, o2, k), p02unit(f.home(), f.pre, []*Stmt{Ex(Asg(o1, f.lv(), a)), Ex(Asg(o2, f.lv(), b))}), Tight, []int64{3, -2, 1 << 62}, 1)) {
						return false
					}
				}
			}
		}
	}
	return true
}

// p03consts: every constant as the condition of every statement.
func p03consts(c *Ctx, yield func(*Case) bool) bool {
	o := func(k int) *Expr { return Call("o", Num(int64(k))) }
	t := func(k int) *Stmt { return tcall(Num(int64(k))) }
	ks := wordConsts()
	x := V("x")
	ks = append(ks, Asg("", x, Num(0)), Asg("", x, Num(2)), Asg("", x, Num(1<<32)), Asg("+", x, Num(4)), x, Inc(KPostInc, x), Inc(KPreInc, x), Inc(KPostDec, x), Un("!", x), Un("-", x), Call("z#", Num(2)), Call("z#", Num(0)), Call("z#", Num(1<<40)), Bin("&", o(1), Num(2)), Bin("*", o(1), Num(2)), Bin("<<", o(1), Num(32)), Bin("<<", o(1), Num(63)), Un("-", o(1)))
	for i := range ks {
		e := func() *Expr { return ks[i] }
		no := func() *Expr {
			if ks[i].level() > 2 {
				return Un("!", Paren(ks[i]))
			}
			return Un("!", ks[i])
		}
		bodies := [][]*Stmt{
			{If(e(), t(1), nil)},
			{If(e(), t(1), t(2))},
			{If(e(), Return(Num(5)), nil), t(1)},
			{If(e(), Null(), t(2))},
			{If(e(), Block(), nil)},
			{If(no(), t(1), t(2))},
			{If(e(), If(o(2), t(1), t(2)), t(3))},
			{If(o(2), If(e(), t(1), t(2)), t(3))},
			{If(o(2), t(1), If(e(), t(2), t(3)))},
			{If(e(), t(1), If(e(), t(2), t(3))), t(4)},
			{While(e(), Return(Num(5))), t(1)},
			{While(e(), Block(t(1), If(o(2), Return(Num(7)), nil), t(2))), t(3)},
			{While(e(), If(o(2), Goto("out"), t(1))), t(2), Label("out", t(3))},
			{While(e(), Block(t(1), Goto("out"))), t(2), Label("out", t(3))},
			{While(no(), Block(t(1), Goto("out"))), t(2), Label("out", t(3))},
			{While(o(2), Block(t(1), If(e(), Return(Num(6)), nil)))},
			{While(o(2), While(e(), Block(t(1), Goto("out")))), Label("out", t(3))},
			{While(e(), While(e(), Return(Num(4)))), t(9)},
			{While(e(), Switch(o(2), Block(CaseS(1, Return(Num(4))), CaseS(0, Goto("out"))))), Label("out", t(3))},
			{t(1), Label("again", t(2)), If(e(), If(o(2), Goto("again"), nil), nil), t(3)},
			{tcall(Cond(e(), Num(3), Num(4)))},
			{Return(Cond(e(), o(2), o(3)))},
			{tcall(Cond(o(2), Cond(e(), Num(3), Num(4)), Num(5)))},
			{Switch(e(), Block(CaseS(0, t(1)), CaseS(1, t(2)), CaseS(2, t(3)), CaseS(8, t(4)), CaseS(255, t(5)), CaseS(256, t(6)), CaseS(1<<31, t(7)), CaseS(1<<32, t(8)), CaseS(1<<62, t(9)), CaseS('a', t(10)))), t(11)},
			{Switch(e(), Block(CaseS(2, Return(Num(2))), CaseS(0, Return(Num(1))), CaseS(1, Return(Num(3))))), t(11)},
			{Switch(o(2), Block(CaseS(0, If(e(), t(1), t(2))), CaseS(1, While(e(), Return(Num(3)))))), t(4)},
		}
		for bi, b := range bodies {
			for tail := 0; tail < 2; tail++ {
				if tail == 1 && bi%3 != 0 && !c.Thorough() {
					continue
				}
				st := append([]*Stmt{Auto(Decl{Name: "x"})}, b...)
				if tail == 0 {
					st = append(st, tcall(x), t(99))
				}
				u := &Unit{Funcs: []*Func{fn("z#", []string{"a"}, Return(V("a"))), fn("p#", nil, st...)}}
				if !yield(prog(fmt.Sprintf("condition:%d:%d:%s", bi, tail, ks[i]), u, Tight, []int64{0, 1, 2}, 3)) {
					return false
				}
			}
		}
	}
	// case constants against selectors on either side of them
	cs := []struct {
		src string
		v   int64
	}{{"0", 0}, {"1", 1}, {"2", 2}, {"7", 7}, {"010", 8}, {"'a'", 'a'}, {"'*0'", 0}, {"''", 0}, {"'ab'", 'a'<<8 | 'b'}, {"255", 255}, {"256", 256}, {"65536", 65536}, {"2147483647", 1<<31 - 1}, {"2147483648", 1 << 31}, {"4294967295", 1<<32 - 1}, {"4294967296", 1 << 32}, {"4611686018427387904", 1 << 62}, {"9223372036854775807", 1<<63 - 1}}
	for i, a := range cs {
		for j, b := range cs {
			if i == j || a.v == b.v {
				continue
			}
			ca, cb := CaseS(a.v, t(1)), CaseS(b.v, t(2))
			ca.Src, cb.Src = a.src, b.src
			dom := []int64{a.v, b.v, a.v + 1, a.v - 1, -a.v - 1, a.v & 0xff, a.v ^ 1<<32, a.v ^ -1<<63}
			if !yield(prog(fmt.Sprintf("cases %s %s", a.src, b.src), &Unit{Funcs: []*Func{fn("p#", nil, Switch(Call("c"), Block(ca, cb)), t(99))}}, Tight, dom, 1)) {
				return false
			}
		}
	}
	return true
}

// p04inits: every short list of initial values over zero, number, string.
func p04inits(c *Ctx, yield func(*Case) bool) bool {
	alt := []Init{numInit(0), numInit(5), {Src: "\"s\"", Str: []byte("s"), IsStr: true}, {Src: "-1", Val: -1}, {Src: "'*0'", Val: 0}, {Src: "-0", Val: 0}, {Src: "00", Val: 0}, {Src: "\"\"", Str: []byte{}, IsStr: true}}
	maxLen := Pick(c, 4, 5)
	for n := 1; n <= maxLen; n++ {
		k := []int{8, 8, 5, 3, 3}[n-1]
		idx := make([]int, n)
		for {
			var in []Init
			for _, i := range idx {
				in = append(in, alt[i])
			}
			for sz := int64(-2); sz <= 5; sz++ { // -2: a scalar
				if !c.Thorough() && n == 4 && sz > -1 && sz != 4 && sz != 5 {
					continue
				}
				g := &Glob{Name: "g#", Vec: sz >= -1, Size: max(sz, -1), Inits: in}
				w := int64(n)
				if g.Vec {
					w = max(w, sz, 1)
				}
				cell := func(i int64) *Expr {
					if g.Vec {
						return Idx(V("g#"), Num(i))
					}
					if i == 0 {
						return V("g#")
					}
					return Idx(Paren(Addr(V("g#"))), Num(i))
				}
				see := func(i int64) *Expr {
					if int(i) < n && in[i].IsStr {
						return Call("b", cell(i), Num(int64(len(in[i].Str)+1)))
					}
					return cell(i)
				}
				body := []*Stmt{Extrn("a#", "g#", "z#")}
				body = append(body, dumpWords(see, w)...)
				body = append(body, tcall(V("a#")), tcall(V("z#")))
				for i := int64(0); i < w; i++ {
					body = append(body, set(cell(i), Num(100+i)))
				}
				body = append(body, dumpWords(cell, w)...)
				body = append(body, tcall(V("a#")), tcall(V("z#")), set(V("a#"), Num(1)), set(V("z#"), Num(2)))
				body = append(body, dumpWords(cell, w)...)
				u := &Unit{Globs: []*Glob{{Name: "a#", Size: -1, Inits: []Init{numInit(71)}}, g, {Name: "z#", Size: -1, Inits: []Init{numInit(72)}}}, Funcs: []*Func{fn("p#", nil, body...)}}
				var tk []string
				g.tokens(&tk)
				if !yield(prog("initial values:"+Join(tk, Tight), u, Tight, domPos, 0)) {
					return false
				}
			}
			q := 0
			for q < n {
				idx[q]++
				if idx[q] < k {
					break
				}
				idx[q] = 0
				q++
			}
			if q == n {
				break
			}
		}
	}
	return true
}

// p05names: three functions call through every name, each of which may be
// hidden by a parameter or an automatic variable, the function's own included.
func p05names(c *Ctx, yield func(*Case) bool) bool {
	v, n := V, Num
	fns := []string{"f#", "g#", "k#"}
	type hider struct{ kind, name int } // kind 0 none, 1 only parameter, 2 second parameter, 3 auto, 4 first of two
	var hs []hider
	hs = append(hs, hider{0, 0})
	for k := 1; k <= 4; k++ {
		for m := 0; m < 3; m++ {
			hs = append(hs, hider{k, m})
		}
	}
	mk := func(self int, h hider) *Func {
		var ps []string
		body := []*Stmt{Extrn("N#")}
		nm := ""
		if h.kind > 0 {
			nm = fns[h.name]
		}
		switch h.kind {
		case 0:
			ps = []string{"a", "e"}
		case 1:
			ps = []string{nm}
		case 2:
			ps = []string{"a", nm}
		case 3:
			ps = []string{"a", "e"}
			body = append(body, Auto(Decl{Name: nm}), set(v(nm), v("e")))
		case 4:
			ps = []string{nm, "e"}
		}
		body = append(body, tcall(n(int64(self+1))), If(Bin("<", Inc(KPreDec, v("N#")), n(0)), Return(n(int64(10+self))), nil))
		// call all three names with a function as every argument
		for q := 0; q < 3; q++ {
			z := v(fns[(q+1)%3])
			body = append(body, tcall(Bin("*", n(3), Call(fns[q], z, z))))
		}
		body = append(body, Return(n(int64(20+self))))
		return fn(fns[self], ps, body...)
	}
	none := hider{}
	for a, ha := range hs {
		for b, hb := range hs {
			for d, hd := range []hider{none, {1, 2}, {3, 0}, {2, 1}} {
				if !c.Thorough() && d > 0 && (a+b+d)%3 != 0 {
					continue
				}
				fs := []*Func{mk(0, ha), mk(1, hb), mk(2, hd)}
				fs = append(fs, fn("p#", nil, Extrn("N#"), set(v("N#"), n(4)), tcall(Call("f#", v("g#"), v("k#"))), set(v("N#"), n(3)), tcall(Call("g#", v("f#"), v("f#"))), set(v("N#"), n(3)), Return(Call("k#", v("g#"), v("g#")))))
				for _, ord := range [][]int{nil, {-1, 3, 2, 1, 0}, {1, 0, -1, 3, 2}} {
					if ord != nil && (a*5+b+d)%3 != len(ord)%3 && !c.Thorough() && d > 0 {
						continue
					}
					if !yield(prog(fmt.Sprintf("names %v %v %v %v", ha, hb, hd, ord), &Unit{Globs: []*Glob{{Name: "N#", Size: -1}}, Funcs: fs, Order: ord}, Tight, []int64{0}, 0)) {
						return false
					}
				}
			}
		}
	}
	return true
}

// plainNames are spellings of names that stand out in some way.
var plainNames = []string{"_f", "__f", "_", "__", "___", "F", "X", "Main", "MAIN", "main_", "_main", "main1", "_start", "start", "f_", "f__", "x1", "_9", "X9_", "iff", "autox", "extrn_", "elseif", "while1", "caseof", "switch_", "gotox", "return0", "i", "i64", "z", "Z", "A", "printf_", "print", "puts", "malloc", "memcpy", "memset", "strlen", "exit_", "abort", "llvm", "define", "global", "entry", "ptr", "e", "f", "g", "l", "u", "w", "x", "y", "char_", "nwrite_", "b_", "bb", "aVeryLongName_0123456789_aVeryLongName_0123456789_aVeryLongName", "errno", "environ", "end", "edata", "etext", "__bss_start", "data", "text", "main2", strings.Repeat("q", 31), strings.Repeat("r", 32), strings.Repeat("s", 255), strings.Repeat("k", 300)}

// p14spelling: functions and variables of every spelling used across files.
func p14spelling() (sets []*p14set) {
	v, n := V, Num
	for turn := 0; turn < 2; turn++ {
		s := &p14set{name: []string{"spelled functions", "spelled variables"}[turn], n: 4}
		for _, nm := range plainNames {
			for _, form := range []string{nm, nm + "_#", "_" + nm + "#"} {
				f, g := form, "g#"
				if turn == 1 {
					f, g = "f#", form
				}
				u := &Unit{
					Globs: []*Glob{{Name: g, Size: -1, Inits: []Init{numInit(6)}}},
					Funcs: []*Func{
						fn(f, []string{"x"}, Extrn(g), If(Bin("<", v("x"), n(0)), Return(v(f)), nil), Ex(Asg("+", v(g), v("x"))), Return(Bin("*", v(g), n(3)))),
						fn("j#", nil, Extrn(g), Return(Bin("+", Call(f, n(2)), v(g)))),
						fn("p#", nil, Auto(Decl{Name: "a1"}), Extrn(g), tcall(v(g)), tcall(Call(f, n(1))), tcall(Call("j#")), set(v("a1"), Call(f, n(-1))), tcall(CallE(v("a1"), n(4))), set(v(g), n(50)), tcall(Call("j#")), Return(v(g))),
					},
				}
				cs := prog("spelling:"+f+":"+g, u, Tight, []int64{0}, 0)
				cs.explore()
				if len(cs.runs) > 0 {
					s.cases = append(s.cases, cs)
				}
			}
		}
		sets = append(sets, s)
	}
	return
}
