package main

import (
	"fmt"
	"strconv"
)

func init() { checks["P01"] = checkP01 }

// shape is an operator tree; leaves are numbered from left to right.
type opSym struct {
	name  string
	arity int
}

func allOps(bin []string, un []string, cond bool) []opSym {
	var o []opSym
	for _, b := range bin {
		o = append(o, opSym{b, 2})
	}
	for _, u := range un {
		o = append(o, opSym{u, 1})
	}
	if cond {
		o = append(o, opSym{"?", 3})
	}
	return o
}

// trees enumerates every operator tree with exactly n operators.
func trees(n int, ops []opSym, yield func(*Expr) bool) bool {
	if n == 0 {
		return yield(&Expr{K: KVar})
	}
	for _, op := range ops {
		ok := true
		switch op.arity {
		case 1:
			ok = trees(n-1, ops, func(a *Expr) bool { return yield(Un(op.name, a)) })
		case 2:
			for l := 0; l < n && ok; l++ {
				ok = trees(l, ops, func(a *Expr) bool {
					return trees(n-1-l, ops, func(b *Expr) bool { return yield(Bin(op.name, a, b)) })
				})
			}
		case 3:
			for l := 0; l < n && ok; l++ {
				for m := 0; l+m < n && ok; m++ {
					ok = trees(l, ops, func(a *Expr) bool {
						return trees(m, ops, func(b *Expr) bool {
							return trees(n-1-l-m, ops, func(d *Expr) bool { return yield(Cond(a, b, d)) })
						})
					})
				}
			}
		}
		if !ok {
			return false
		}
	}
	return true
}

// fill copies a tree, replacing leaf i by leaf(i).
func fill(e *Expr, n *int, leaf func(i int) *Expr) *Expr {
	if e == nil {
		return nil
	}
	if e.K == KVar && e.Name == "" {
		*n++
		return leaf(*n - 1)
	}
	x := *e
	x.A = fill(e.A, n, leaf)
	x.B = fill(e.B, n, leaf)
	x.C = fill(e.C, n, leaf)
	return &x
}

func filled(e *Expr, leaf func(i int) *Expr) (*Expr, int) {
	n := 0
	x := fill(e, &n, leaf)
	return x, n
}

func fn(name string, params []string, body ...*Stmt) *Func {
	return &Func{Name: name, Params: params, Body: Block(body...)}
}

// prog makes a case from a unit.
func prog(key string, u *Unit, sp Spacing, dom []int64, maxCh int) *Case {
	return &Case{Key: key, Src: u.Text(sp), Unit: u, Entry: "p#", Dom: dom, MaxCh: maxCh}
}

func oLeaf(i int) *Expr { return Call("o", Num(int64(i+1))) }

func tcall(e *Expr) *Stmt { return Ex(Call("t", e)) }

var dom10 = []int64{0, 1, 2, 3, 5, -1, -3, 63, 1 << 62, -1 << 63}
var dom6 = []int64{0, 1, 2, -1, 7, -1 << 63}
var dom4 = []int64{7, -2, 1, 3}
var domPos = []int64{1, 0, 5}

func boundary() []int64 {
	d := []int64{0, 1, 2, 3, 4, 5, 7, 8, 10, 31, 32, 33, 62, 63, 64, 100, 255, 256, 32767, 65536, 1<<31 - 1, 1 << 31, 1<<32 - 1, 1 << 32, 1<<62 - 1, 1 << 62, 1<<63 - 1, -1 << 63}
	for _, v := range append([]int64(nil), d...) {
		if v > 0 {
			d = append(d, -v)
		}
	}
	return append(d, -1<<63+1, 0x0123456789abcdef, -0x123456789abcdef)
}

func checkP01(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "states: (program, sequence of operand choices) nodes of the reference machine; every operator tree up to the stated size, rendered with the fewest parentheses, is run with every combination of operand values from its domain, and trace and value are compared with code compiled at -O0 and -O2"
	c.Assumptions = []string{"division by zero, the word minimum divided by -1 and shift counts outside 0..63 are not defined by the language and not used"}
	all := allOps(binOps, []string{"-", "!"}, true)
	binOnly := allOps(binOps, nil, false)
	few := allOps([]string{"*", "-", ">>", "<", "==", "&", "|"}, []string{"-", "!"}, true)
	maxBin := Pick(c, 3, 4)
	c.Extra["bounds"] = map[string]any{"operators per tree (15 binary operators)": maxBin, "operators per tree (with unary and conditional)": Pick(c, 2, 3), "one operator per level, unary and conditional": Pick(c, 3, 4)}
	c.RunCases(BatchOpts{}, func(yield func(*Case) bool) {
		id := 0
		ret := func(part string, e *Expr, n int, dom []int64, sp Spacing) bool {
			id++
			return yield(prog(fmt.Sprintf("%s:%s", part, e), &Unit{Funcs: []*Func{fn("p#", nil, Return(e))}}, sp, dom, n))
		}
		// every operator alone, over all pairs of boundary values
		bnd := boundary()
		trees(1, allOps(binOps, []string{"-", "!"}, false), func(t *Expr) bool {
			e, n := filled(t, oLeaf)
			return ret("values", e, n, bnd, Tight)
		})
		// the same with constants and variables as operands
		cv := []int64{0, 1, 2, 3, 8, 63, 255, 1 << 32, 1<<63 - 1, -1, -7, -1 << 63}
		for _, op := range binOps {
			for _, a := range cv {
				for _, b := range cv {
					if !ret("constants", Bin(op, Num(a), Num(b)), 0, domPos, Tight) {
						return
					}
				}
			}
			for _, a := range append([]int64{6, 9, 12, 15, 16, 17, 20, 24, 48, 60, 61, 127, 128, 129, 1000, 1023, 1024, 1025, 4096, -6, -9, -16, -24, -128, -1024}, bnd...) {
				if !ret("constants", Bin(op, Num(a), oLeaf(0)), 1, bnd, Tight) || !ret("constants", Bin(op, oLeaf(0), Num(a)), 1, bnd, Tight) {
					return
				}
				// both sides the same variable, and a constant applied twice
				x := V("x")
				for _, e := range []*Expr{Bin(op, x, x), Bin(op, Bin(op, x, Num(a)), Num(a)), Bin("-", Bin(op, x, Num(a)), Bin(op, x, Num(a)))} {
					if !yield(prog("variable:"+e.String(), &Unit{Funcs: []*Func{fn("p#", nil, Auto(Decl{Name: "x"}), Ex(Asg("", x, Call("c"))), Return(e))}}, Tight, bnd, 1)) {
						return
					}
				}
			}
		}
		if !p01consts(c, yield) {
			return
		}
		// trees over all operators
		for n := 1; n <= Pick(c, 2, 3); n++ {
			dom := dom10
			if n == 3 {
				dom = dom4
			}
			for _, sp := range []Spacing{Tight, Loose, Lines} {
				if n == 3 && sp != Tight {
					continue
				}
				if !trees(n, all, func(t *Expr) bool {
					e, k := filled(t, oLeaf)
					d := dom
					if k > 3 {
						d = dom4
					}
					if k > 4 {
						d = domPos
					}
					return ret("tree", e, k, d, sp)
				}) {
					return
				}
			}
		}
		// binary operators only, larger trees
		for n := 3; n <= maxBin; n++ {
			if !trees(n, binOnly, func(t *Expr) bool {
				e, k := filled(t, oLeaf)
				d := dom4
				if n > 3 {
					d = []int64{7, -2, 1}
				}
				return ret("bintree", e, k, d, Tight)
			}) {
				return
			}
		}
		// one operator per precedence level, with unary and conditional
		if !trees(Pick(c, 3, 4), few, func(t *Expr) bool {
			e, k := filled(t, oLeaf)
			d := []int64{7, -2, 0}
			if k > 4 {
				d = []int64{3, 0}
			}
			return ret("mixed", e, k, d, Tight)
		}) {
			return
		}
		// leaf kinds: each position in turn
		leafKinds := []string{"const", "octal", "char", "var", "extern", "index", "deref", "call", "paren", "postinc", "postdec", "preinc", "predec", "assign", "addrdiff", "neg", "not", "call2", "icall"}
		for n := 1; n <= 2; n++ {
			if !trees(n, all, func(t *Expr) bool {
				_, k := filled(t, oLeaf)
				for pos := 0; pos < k; pos++ {
					for _, lk := range leafKinds {
						if n == 2 && !c.Thorough() && (lk == "octal" || lk == "predec" || lk == "postdec" || lk == "not" || lk == "call2") {
							continue
						}
						names := []string{"a", "x", "y", "z", "w", "u", "s"}
						e, _ := filled(t, func(i int) *Expr {
							if i != pos {
								return V(names[i+1])
							}
							switch lk {
							case "const":
								return Num(3)
							case "octal":
								return Lit("017", 15)
							case "char":
								return Lit("'A'", 65)
							case "var":
								return V("a")
							case "extern":
								return V("g#")
							case "index":
								return Idx(V("v"), V("one"))
							case "deref":
								return Deref(V("q"))
							case "call":
								return Call("t", V("a"))
							case "call2":
								return Call("n", Num(2), V("a"), V("x"))
							case "icall":
								return CallE(V("fp"), V("a"))
							case "paren":
								return Paren(Paren(V("a")))
							case "postinc":
								return Inc(KPostInc, V("a"))
							case "postdec":
								return Inc(KPostDec, V("a"))
							case "preinc":
								return Inc(KPreInc, V("a"))
							case "predec":
								return Inc(KPreDec, V("a"))
							case "assign":
								return Paren(Asg("+", V("a"), Num(2)))
							case "addrdiff":
								return Paren(Bin("-", Addr(Idx(V("v"), Num(1))), V("v")))
							case "neg":
								return Un("-", V("a"))
							case "not":
								return Un("!", V("a"))
							}
							panic(lk)
						})
						body := []*Stmt{Auto(Decl{Name: "a"}, Decl{Name: "x"}, Decl{Name: "y"}, Decl{Name: "z"}, Decl{Name: "w"}, Decl{Name: "u"}, Decl{Name: "s"}, Decl{Name: "v", Vec: true, Size: 2}, Decl{Name: "q"}, Decl{Name: "one"}, Decl{Name: "fp"}), Extrn("g#")}
						for i := 0; i < k; i++ {
							nm := names[i+1]
							if i == pos {
								nm = "a"
							}
							body = append(body, Ex(Asg("", V(nm), Call("c"))))
						}
						body = append(body, Ex(Asg("", V("one"), Num(1))), Ex(Asg("", V("g#"), V("a"))), Ex(Asg("", Idx(V("v"), Num(0)), Num(77))), Ex(Asg("", Idx(V("v"), Num(1)), V("a"))), Ex(Asg("", V("q"), Addr(V("a")))), Ex(Asg("", V("fp"), V("h#"))))
						body = append(body, tcall(e), tcall(V("a")), tcall(V("x")), Return(Bin("+", V("y"), V("z"))))
						u := &Unit{Globs: []*Glob{{Name: "g#"}}, Funcs: []*Func{fn("h#", []string{"a"}, Return(Bin("+", V("a"), Num(1)))), fn("p#", nil, body...)}}
						d := []int64{2, -3, 1, 0}
						if k > 3 {
							d = []int64{2, -3}
						}
						if !yield(prog("leaf:"+lk+":"+e.String(), u, Tight, d, k)) {
							return false
						}
					}
				}
				return true
			}) {
				return
			}
		}
		// every place an expression can stand in
		for n := 1; n <= 2; n++ {
			ops := all
			if n == 2 && !c.Thorough() {
				ops = few
			}
			if !trees(n, ops, func(t *Expr) bool {
				e, k := filled(t, func(i int) *Expr { return Call("o", Num(int64(i+1))) })
				d := []int64{7, -2, 0, 1}
				if k > 3 {
					d = []int64{5, 0}
				}
				ctx := func(name string, body ...*Stmt) bool {
					body = append([]*Stmt{Auto(Decl{Name: "a"}, Decl{Name: "v", Vec: true, Size: 3})}, body...)
					return yield(prog("place:"+name+":"+e.String(), &Unit{Funcs: []*Func{fn("p#", nil, body...)}}, Tight, d, k))
				}
				bool01 := Bin("!=", Paren(e), Num(0))
				return ctx("if", If(e, tcall(Num(91)), tcall(Num(92)))) &&
					ctx("stmt", Ex(e), Return(Num(5))) &&
					ctx("while", While(Bin("<", V("a"), Num(1)), Block(Ex(Inc(KPostInc, V("a"))), Ex(e)))) &&
					ctx("whilecond", While(e, Return(Num(1))), Return(Num(2))) &&
					ctx("switch", Switch(e, Block(CaseS(0, tcall(Num(90))), CaseS(1, tcall(Num(91))), CaseS(5, tcall(Num(92)))))) &&
					ctx("arg", Ex(Call("n", Num(3), Num(1), e, Num(2)))) &&
					ctx("args", Ex(Call("n", Num(2), e, e))) &&
					ctx("assign", Ex(Asg("", V("a"), e)), Return(V("a"))) &&
					ctx("addassign", Ex(Asg("", V("a"), Num(3))), Ex(Asg("+", V("a"), e)), Return(V("a"))) &&
					ctx("index", Ex(Asg("", Idx(V("v"), Num(0)), Num(40))), Ex(Asg("", Idx(V("v"), Num(1)), Num(41))), Return(Idx(V("v"), bool01))) &&
					ctx("paren", Return(Paren(Paren(e)))) &&
					ctx("condarm", Return(Cond(Num(1), Paren(e), Num(3)))) &&
					ctx("nestedarg", Return(Call("t", Call("t", e))))
			}) {
				return
			}
		}
		// subscripts whose index changes the base
		if !subscriptCases(false, yield) {
			return
		}
		// one cell read and changed within one expression
		for _, cell := range []string{"auto", "extern", "element", "parameter"} {
			a := map[string]*Expr{"auto": V("a"), "extern": V("g#"), "element": Idx(V("v"), Num(1)), "parameter": V("r")}[cell]
			leaves := []*Expr{a, Inc(KPostInc, a), Inc(KPreDec, a), Paren(Asg("", a, Num(9))), Paren(Asg("+", a, Num(3))), Call("m#", Addr(a)), Deref(V("q")), Num(2)}
			for n := 1; n <= 2; n++ {
				ops := all
				if n == 2 {
					ops = allOps(Pick(c, []string{"-", "<"}, []string{"-", "<", "*", "|"}), Pick(c, nil, []string{"-"}), true)
				}
				if !trees(n, ops, func(t *Expr) bool {
					_, k := filled(t, oLeaf)
					if k > 3 && !c.Thorough() && cell != "auto" {
						return true
					}
					idx := make([]int, k)
					var rec func(i int) bool
					rec = func(i int) bool {
						if i < k {
							for idx[i] = 0; idx[i] < len(leaves); idx[i]++ {
								if k > 3 && !c.Thorough() && idx[i]%2 == 0 && idx[i] > 0 {
									continue
								}
								if !rec(i + 1) {
									return false
								}
							}
							return true
						}
						e, _ := filled(t, func(i int) *Expr { return leaves[idx[i]] })
						var body []*Stmt
						if cell == "extern" {
							body = append(body, Extrn("g#"))
						}
						body = append(body, Auto(Decl{Name: "a"}, Decl{Name: "q"}, Decl{Name: "v", Vec: true, Size: 2, Src: "2"}), set(a, Num(5)), set(V("q"), Addr(a)), tcall(e), Return(a))
						m := fn("m#", []string{"x"}, set(Deref(V("x")), Bin("+", Deref(V("x")), Num(10))), Return(Bin("-", Deref(V("x")), Num(1))))
						main := fn("p#", nil, body...)
						u := &Unit{Funcs: []*Func{m, main}}
						if cell == "extern" {
							u.Globs = []*Glob{{Name: "g#", Size: -1}}
						}
						if cell == "parameter" {
							main.Name, main.Params = "b#", []string{"r"}
							u.Funcs = append(u.Funcs, fn("p#", nil, Return(Call("b#", Num(4)))))
						}
						return yield(prog("changing:"+cell+":"+e.String(), u, Tight, domPos, 0))
					}
					return rec(0)
				}) {
					return
				}
			}
		}
		// long chains and deep nesting
		chain := func(op string, n int, leaf func(i int) *Expr) *Expr {
			e := leaf(0)
			for i := 1; i <= n; i++ {
				e = Bin(op, e, leaf(i))
			}
			return e
		}
		var sizes []int
		for n := 3; n <= Pick(c, 40, 90); n++ {
			sizes = append(sizes, n)
		}
		for _, n := range append(sizes, Pick(c, []int{63, 64, 65, 66, 127, 128, 129, 255, 256, 257, 300}, []int{100, 127, 128, 129, 130, 200, 255, 256, 257, 300, 400, 511, 512, 513, 600, 800})...) {
			for _, op := range []string{"-", "/", "|", "<", "==", "*", ">>"} {
				if !ret("chain", chain(op, n, func(i int) *Expr { return Num(int64((i*7 + 3) % 5)) }), 0, domPos, Tight) {
					return
				}
			}
			deep := oLeaf(0)
			neg := oLeaf(0)
			tern := Num(99)
			right := oLeaf(0)
			for i := 0; i < n; i++ {
				deep = Bin([]string{"-", "*", "+", "|"}[i%4], Num(int64(i+1)), Paren(deep))
				neg = Un([]string{"-", "!"}[i%2*(i/7%2)], neg)
				tern = Cond(Bin("==", Call("c"), Num(int64(i))), Num(int64(i+1)), tern)
				right = Bin("-", Num(int64(i)), right)
			}
			if !ret("deep", deep, 1, domPos, Tight) || !ret("unary", neg, 1, dom6, Tight) || !ret("right", right, 1, domPos, Tight) {
				return
			}
			if n <= 8 {
				if !ret("condchain", tern, n, []int64{3, 5}, Tight) {
					return
				}
			}
		}
		_ = strconv.Itoa
	})
}
