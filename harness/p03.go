package main

import (
	"fmt"
)

func init() { checks["P03"] = checkP03 }

// stmtGen enumerates statement trees by number of nodes.
type stmtGen struct {
	act, ret, ret0, null, gotos, labels, ifs, ifelse, whiles, switches, blocks bool
	consts                                                                     bool
}

// shape nodes: actions, conditions and return values are numbered afterwards.
func (g *stmtGen) stmts(n int, inSwitch bool, yield func(*Stmt) bool) bool {
	if n <= 0 {
		return true
	}
	if n == 1 {
		if g.act && !yield(&Stmt{K: SExpr}) {
			return false
		}
		if g.null && !yield(Null()) {
			return false
		}
		if g.ret && !yield(&Stmt{K: SReturn, Name: "v"}) {
			return false
		}
		if g.ret0 && !yield(&Stmt{K: SReturn}) {
			return false
		}
		if g.gotos {
			if !yield(Goto("L")) || g.labels && !yield(Goto("M")) {
				return false
			}
		}
		if g.blocks && !yield(Block()) {
			return false
		}
		if g.switches && !yield(&Stmt{K: SSwitch, S: Block()}) {
			return false
		}
		return true
	}
	if g.gotos {
		for _, l := range []string{"L", "M"} {
			if l == "M" && !g.labels {
				continue
			}
			if !g.stmts(n-1, inSwitch, func(s *Stmt) bool { return yield(Label(l, s)) }) {
				return false
			}
		}
	}
	if inSwitch {
		if !g.stmts(n-1, true, func(s *Stmt) bool { return yield(&Stmt{K: SCase, S: s}) }) {
			return false
		}
	}
	if g.ifs && !g.stmts(n-1, false, func(s *Stmt) bool { return yield(&Stmt{K: SIf, S: s}) }) {
		return false
	}
	if g.whiles && !g.stmts(n-1, false, func(s *Stmt) bool { return yield(&Stmt{K: SWhile, S: s}) }) {
		return false
	}
	if g.switches {
		if !g.list(n-1, true, func(l []*Stmt) bool { return yield(&Stmt{K: SSwitch, S: Block(l...)}) }) {
			return false
		}
		// a switch whose body is not a block
		if !g.stmts(n-1, true, func(s *Stmt) bool {
			if s.K == SBlock {
				return true
			}
			return yield(&Stmt{K: SSwitch, S: s})
		}) {
			return false
		}
	}
	if g.ifelse {
		for a := 1; a < n-1; a++ {
			if !g.stmts(a, false, func(s *Stmt) bool {
				return g.stmts(n-1-a, false, func(s2 *Stmt) bool { return yield(&Stmt{K: SIf, S: s, S2: s2}) })
			}) {
				return false
			}
		}
	}
	if g.blocks {
		if !g.list(n-1, inSwitch, func(l []*Stmt) bool { return yield(Block(l...)) }) {
			return false
		}
	}
	return true
}

// list enumerates non-empty statement sequences with n nodes in all.
func (g *stmtGen) list(n int, inSwitch bool, yield func([]*Stmt) bool) bool {
	if n == 0 {
		return yield(nil)
	}
	for a := 1; a <= n; a++ {
		if !g.stmts(a, inSwitch, func(s *Stmt) bool {
			return g.list(n-a, inSwitch, func(r []*Stmt) bool { return yield(append([]*Stmt{s}, r...)) })
		}) {
			return false
		}
	}
	return true
}

type stmtFill struct {
	k       int
	labels  map[string]int
	gotos   map[string]bool
	conds   int
	sw      bool
	bad     bool
	caseOrd int
	constC  int // bit mask of conditions made constant, and values
	constV  int
}

func (f *stmtFill) cond() *Expr {
	f.k++
	f.conds++
	if f.constC>>(f.conds-1)&1 != 0 {
		return Num(int64(f.constV >> (f.conds - 1) & 1))
	}
	return Call("o", Num(int64(f.k)))
}

// fill gives conditions, actions and cases their numbers.
func (f *stmtFill) fill(s *Stmt, cases *int) *Stmt {
	x := *s
	switch s.K {
	case SExpr:
		f.k++
		x.E = Call("t", Num(int64(f.k)))
	case SReturn:
		if s.Name == "v" {
			f.k++
			x.E = Num(int64(f.k))
			x.Name = ""
		}
	case SGoto:
		f.gotos[s.Name] = true
	case SLabel:
		f.labels[s.Name]++
		x.S = f.fill(s.S, cases)
	case SIf:
		x.E = f.cond()
		x.S = f.fill(s.S, nil)
		if s.S2 != nil {
			x.S2 = f.fill(s.S2, nil)
		}
	case SWhile:
		x.E = f.cond()
		x.S = f.fill(s.S, nil)
	case SSwitch:
		f.sw = true
		x.E = f.cond()
		n := 0
		x.S = f.fill(s.S, &n)
	case SCase:
		ord := [][]int64{{1, 2, 0, 3, 4, 5, 6}, {0, 1, 2, 3, 4, 5, 6}, {2, 0, 1, 3, 4, 5, 6}}[f.caseOrd]
		x.Val = ord[*cases]
		*cases++
		x.S = f.fill(s.S, cases)
	case SBlock:
		x.List = nil
		for _, y := range s.List {
			x.List = append(x.List, f.fill(y, cases))
		}
	}
	return &x
}

func checkP03(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "states: nodes of the reference machine over (function body, sequence of condition outcomes); bodies are all statement trees up to the stated number of nodes; every outcome sequence up to the choice bound is replayed on compiled code and all actions compared"
	full := &stmtGen{act: true, ret: true, ret0: true, null: true, gotos: true, labels: true, ifs: true, ifelse: true, whiles: true, switches: true, blocks: true}
	core := &stmtGen{act: true, ret: true, gotos: true, ifs: true, ifelse: true, whiles: true, switches: true}
	flow := &stmtGen{act: true, gotos: true, labels: true, ifs: true, whiles: true}
	swg := &stmtGen{act: true, switches: true, blocks: true, ifs: true}
	nfull, ncore, nflow, nsw := Pick(c, 4, 5), Pick(c, 5, 6), Pick(c, 5, 6), Pick(c, 6, 7)
	c.Extra["bounds"] = map[string]int{"nodes, all statements": nfull, "nodes, core statements": ncore, "nodes, labels and loops": nflow, "nodes, switch": nsw}
	maxCh := Pick(c, 4, 5)
	seen := map[string]bool{}
	c.RunCases(BatchOpts{Every: Pick(c, 3, 1)}, func(yield func(*Case) bool) {
		emit := func(part string, l []*Stmt, ord, constC, constV int, tail bool, sp Spacing) (bool, *stmtFill) {
			f := &stmtFill{labels: map[string]int{}, gotos: map[string]bool{}, caseOrd: ord, constC: constC, constV: constV}
			b := f.fill(Block(l...), nil)
			for n := range f.gotos {
				if f.labels[n] == 0 {
					return true, f
				}
			}
			for _, k := range f.labels {
				if k > 1 {
					return true, f
				}
			}
			// M only together with L, to avoid renamed duplicates
			if f.labels["M"] > 0 && f.labels["L"] == 0 {
				return true, f
			}
			if tail {
				b.List = append(b.List, tcall(Num(99)))
			}
			u := &Unit{Funcs: []*Func{{Name: "p#", Body: b}}}
			key := u.Text(Loose) + fmt.Sprint(sp)
			if seen[key] {
				return true, f
			}
			seen[key] = true
			dom := []int64{0, 1}
			ch := maxCh
			if f.sw {
				dom = []int64{1, 2, 0}
				ch--
			} else if maxCh < 5 {
				ch++
			}
			return yield(prog(part+":"+key, u, sp, dom, ch)), f
		}
		// one part: all bodies of up to n nodes
		part := func(name string, g *stmtGen, from, to int) bool {
			for n := from; n <= to; n++ {
				if !g.list(n, false, func(l []*Stmt) bool {
					ok, f := emit(name, l, 0, 0, 0, true, Tight)
					if !ok {
						return false
					}
					if n <= 3 {
						for _, sp := range []Spacing{Loose, Lines} {
							if ok, _ := emit(name, l, 0, 0, 0, true, sp); !ok {
								return false
							}
						}
						if f.sw {
							for o := 1; o < 3; o++ {
								if ok, _ := emit(name, l, o, 0, 0, true, Tight); !ok {
									return false
								}
							}
						}
						if ok, _ := emit(name, l, 0, 0, 0, false, Tight); !ok {
							return false
						}
					}
					if f.conds > 0 && n <= 4 {
						for m := 1; m < 1<<f.conds; m++ {
							for v := 0; v < 1<<f.conds; v++ {
								if v&^m != 0 {
									continue
								}
								if ok, _ := emit(name+" const", l, 0, m, v, true, Tight); !ok {
									return false
								}
							}
						}
					}
					return true
				}) {
					return false
				}
			}
			return true
		}
		if !part("full", full, 1, nfull) || !part("core", core, nfull+1, ncore) || !part("flow", flow, nfull+1, nflow) || !part("switch", swg, nfull+1, nsw) {
			return
		}
		c.Phase("trees generated")
		if !p03consts(c, yield) {
			return
		}
		p03large(c, yield)
	})
	// labels spelled like the names the compiler makes up
	pool := c.NewPool()
	defer pool.Close()
	c.RunCases(BatchOpts{MaxCases: 1, Levels: []int{0}}, func(y func(*Case) bool) {
		c.namesCases(pool, nameLabels, []int64{0, 1, 2, 5}, 5, y)
	})
	c.Phase("spelling of labels")
}

// p03large: size sweeps and mixed nests.
func p03large(c *Ctx, yield func(*Case) bool) {
	o := func(k int) *Expr { return Call("o", Num(int64(k))) }
	t := func(k int) *Stmt { return tcall(Num(int64(k))) }
	emit := func(name string, dom []int64, maxCh int, only [][]byte, body ...*Stmt) bool {
		cs := prog("large:"+name, &Unit{Funcs: []*Func{fn("p#", nil, body...)}}, Tight, dom, maxCh)
		cs.Only = only
		return yield(cs)
	}
	bit := []int64{0, 1}
	var sizes []int
	for n := 1; n <= 40; n++ {
		sizes = append(sizes, n)
	}
	sizes = append(sizes, Pick(c, []int{63, 64, 65, 66, 127, 128, 129, 130, 255, 256, 257, 258}, []int{48, 49, 63, 64, 65, 66, 80, 96, 100, 101, 112, 120, 127, 128, 129, 130, 200, 254, 255, 256, 257, 258, 400, 511, 512, 513, 600, 1000, 1023, 1024, 1025})...)
	for _, n := range sizes {
		// else-if chain: the k-th condition is the first true one
		var only [][]byte
		for k := 0; k <= n; k++ {
			if n > 60 && k > 2 && k < n-2 && k != n/2 && k != 31 && k != 32 && k != 64 && k != 128 && k != 256 {
				continue
			}
			ch := make([]byte, n)
			if k < n {
				ch[k] = 1
			}
			only = append(only, ch)
		}
		var chain *Stmt = t(99)
		nest := t(98)
		nestE := t(97)
		whiles := t(96)
		sw := Block()
		var blk *Stmt = Block(t(95))
		var lab *Stmt = t(94)
		for k := n - 1; k >= 0; k-- {
			chain = If(Bin("==", Call("c"), Num(1)), t(k), chain)
			nest = If(Bin("!=", Call("c"), Num(1)), nest, nil)
			nestE = If(Bin("!=", Call("c"), Num(1)), nestE, t(k))
			blk = Block(blk)
			lab = Label(fmt.Sprintf("L%d", k), lab)
		}
		if n <= 8 {
			for k := 0; k < n; k++ {
				whiles = While(Call("c"), whiles)
			}
			if !emit(fmt.Sprintf("whiles %d", n), bit, 12, nil, whiles, t(1)) {
				return
			}
		}
		for k := 0; k < n; k++ {
			sw.List = append(sw.List, CaseS(int64((k*7)%n+k/n), t(k)))
		}
		if !emit(fmt.Sprintf("elseif %d", n), bit, n, only, chain, t(100)) ||
			!emit(fmt.Sprintf("nested if %d", n), bit, n, only, nest, t(100)) ||
			!emit(fmt.Sprintf("nested if else %d", n), bit, n, only, nestE, t(100)) ||
			!emit(fmt.Sprintf("blocks %d", n), bit, n, nil, blk, t(100)) ||
			!emit(fmt.Sprintf("labels %d", n), bit, 4, nil, lab, If(Call("c"), Goto("L0"), nil), t(100)) {
			return
		}
		// switch with n cases, every value around them; fall-through and returns
		seenv := map[int64]bool{}
		ok := true
		for i, s := range sw.List {
			if seenv[s.Val] {
				sw.List[i].Val = int64(1000 + i)
			}
			seenv[s.Val] = true
		}
		var dom []int64
		for v := int64(-1); v <= int64(n)+1; v++ {
			if n < 200 || v < 3 || v > int64(n)-4 || v%16 < 2 {
				dom = append(dom, v)
			}
		}
		dom = append(dom, 1<<32, 1<<40+1, -1<<63)
		last := sw.List
		if len(last) > 12 {
			// keep the trace short: every third case returns
			for i := range last {
				if i%3 == 2 {
					last[i] = CaseS(last[i].Val, Block(t(i), Return(Num(int64(i)))))
				}
			}
		}
		ok = emit(fmt.Sprintf("switch %d", n), dom, 1, nil, Switch(o(1), Block(last...)), t(100))
		if !ok {
			return
		}
		// case values of every size
		var big []*Stmt
		var bdom []int64
		for k := 0; k < n; k++ {
			v := int64(1) << uint(k%63)
			v += int64(k / 63)
			if k%2 == 1 {
				v--
			}
			dup := false
			for _, b := range bdom {
				if b == v {
					dup = true
				}
			}
			if dup {
				continue
			}
			bdom = append(bdom, v)
			big = append(big, CaseS(v, Block(t(k), Goto("out"))))
		}
		if len(bdom) > 200 {
			bdom = append(bdom[:100:100], bdom[len(bdom)-100:]...)
		}
		bdom = append(bdom, -1, 77777)
		if !emit(fmt.Sprintf("switch values %d", n), bdom, 1, nil, Switch(o(1), Block(big...)), t(99), Label("out", t(100))) {
			return
		}
		// jump tables by goto: forward and backward
		var body []*Stmt
		for k := 0; k < n; k++ {
			body = append(body, If(Bin("==", V("x"), Num(int64(k))), Goto(fmt.Sprintf("l%d", k)), nil))
		}
		body = append([]*Stmt{Auto(Decl{Name: "x"}), set(V("x"), Call("c"))}, body...)
		body = append(body, t(99), Return(Num(7)))
		for k := n - 1; k >= 0; k-- {
			body = append(body, Label(fmt.Sprintf("l%d", k), t(k)), If(Bin("==", V("x"), Num(0)), Return(Num(int64(k))), nil), Ex(Asg("", V("x"), Num(0))))
		}
		if !emit(fmt.Sprintf("gotos %d", n), dom, 1, nil, body...) {
			return
		}
		// n statements in sequence, a loop of n rounds
		var seq []*Stmt
		for k := 0; k < n; k++ {
			seq = append(seq, t(k))
		}
		if !emit(fmt.Sprintf("sequence %d", n), bit, 0, nil, seq...) ||
			!emit(fmt.Sprintf("loop %d", n), bit, 1, nil, Auto(Decl{Name: "i"}), While(Bin("<", V("i"), Num(int64(n))), Block(t(1), Ex(Inc(KPostInc, V("i"))))), Return(V("i"))) {
			return
		}
	}
	// keyword-like names, bare switch, jumps across constructs
	names := []string{"ifx", "else1", "whilex", "casex", "case_", "return_", "autox", "extrnal", "gotox", "switchx", "_if", "i", "e", "el", "els", "elsee", "els_e", "If", "ELSE", "returns", "autos", "cases"}
	for _, nm := range names {
		v := V(nm)
		body := []*Stmt{Auto(Decl{Name: nm}), set(v, o(1)), If(v, set(v, Bin("+", v, Num(1))), nil), Ex(Asg("+", v, Num(3))), tcall(v), If(v, tcall(Num(5)), Ex(Inc(KPreInc, v))), While(Bin(">", v, Num(4)), Ex(Inc(KPostDec, v))), Switch(v, Block(CaseS(4, set(v, Num(9))), CaseS(3, Ex(Inc(KPostInc, v))))), Return(v)}
		for _, sp := range []Spacing{Tight, Loose, Lines} {
			if !yield(prog(fmt.Sprintf("names:%s:%d", nm, sp), &Unit{Funcs: []*Func{fn("p#", nil, body...)}}, sp, []int64{0, 1, 4, -5}, 1)) {
				return
			}
			// as a label, a function and a statement that starts with the name
			lb := []*Stmt{If(Call("c"), Goto(nm), nil), t(1), Label(nm, t(2)), If(Call("c"), Goto(nm), t(3)), Ex(Call(nm+"#", Num(4))), Return(Call(nm+"#", Num(5)))}
			if !yield(prog(fmt.Sprintf("label:%s:%d", nm, sp), &Unit{Funcs: []*Func{fn(nm+"#", []string{"a"}, Return(Call("t", V("a")))), fn("p#", nil, lb...)}}, sp, bit, 4)) {
				return
			}
		}
	}
	sb := &Stmt{K: SSwitch, E: V("x"), Bare: true, S: Block(CaseS(1, t(1)), CaseS(2, t(2)))}
	if !emit("bare switch", []int64{0, 1, 2, 3}, 1, nil, Auto(Decl{Name: "x"}), set(V("x"), Call("c")), sb, t(3)) {
		return
	}
	// every place a label or a jump target can be, entered from outside
	type place struct {
		name string
		mk   func(in *Stmt) *Stmt
	}
	places := []place{
		{"block", func(s *Stmt) *Stmt { return Block(t(11), s, t(12)) }},
		{"then", func(s *Stmt) *Stmt { return If(o(13), Block(t(14), s, t(15)), t(16)) }},
		{"else", func(s *Stmt) *Stmt { return If(o(13), t(16), Block(t(14), s, t(15))) }},
		{"then1", func(s *Stmt) *Stmt { return If(o(13), s, nil) }},
		{"else1", func(s *Stmt) *Stmt { return If(o(13), t(16), s) }},
		{"while", func(s *Stmt) *Stmt { return While(o(17), Block(t(18), s, t(19))) }},
		{"while1", func(s *Stmt) *Stmt { return While(o(17), s) }},
		{"switch", func(s *Stmt) *Stmt { return Switch(o(20), Block(t(21), CaseS(1, t(22)), s, CaseS(0, t(23)), t(24))) }},
		{"case", func(s *Stmt) *Stmt { return Switch(o(20), Block(CaseS(1, s), CaseS(0, t(23)))) }},
		{"caseblock", func(s *Stmt) *Stmt { return Switch(o(20), Block(CaseS(1, Block(t(25), s, t(26))), t(27))) }},
		{"label", func(s *Stmt) *Stmt { return Label("K", s) }},
	}
	jumps := []*Stmt{Goto("T"), Return(Num(8)), Return(nil), t(30), Null(), Block(Goto("T"), t(31)), Block(Return(Num(9)), t(32)), If(o(33), Goto("T"), nil), If(o(33), Return(Num(3)), Goto("T")), While(o(34), Goto("T")), While(Num(1), Block(t(35), Return(Num(4)))), Switch(o(36), Block(CaseS(1, Goto("T")), CaseS(0, Return(Num(5)))))}
	for i, p1 := range places {
		for j, j1 := range jumps {
			if !emit(fmt.Sprintf("place %s %d", p1.name, j), bit, 4, nil, p1.mk(j1), t(40), Label("T", t(41))) ||
				!emit(fmt.Sprintf("target in %s %d", p1.name, j), bit, 5, nil, t(42), j1, t(43), p1.mk(Label("T", t(44))), t(45)) {
				return
			}
			for k, p2 := range places {
				if p1.name == "label" && p2.name == "label" {
					continue
				}
				if !c.Thorough() && (i+j+k)%3 != 0 && j > 2 {
					continue
				}
				if !emit(fmt.Sprintf("place2 %s %s %d", p1.name, p2.name, j), bit, 4, nil, p1.mk(p2.mk(j1)), t(40), Label("T", t(41))) {
					return
				}
				if p1.name == "label" || p2.name == "label" {
					continue
				}
				if !emit(fmt.Sprintf("from to %s %s %d", p1.name, p2.name, j), bit, 4, nil, p1.mk(j1), t(46), p2.mk(Label("T", t(47))), t(48)) ||
					!emit(fmt.Sprintf("back %s %s %d", p1.name, p2.name, j), bit, 5, nil, p2.mk(Label("T", t(47))), t(46), p1.mk(j1), t(48)) {
					return
				}
			}
		}
	}
	// a function without any return, with only nested returns, called for its value
	for i, b := range [][]*Stmt{{}, {t(1)}, {If(o(1), Return(Num(5)), nil)}, {If(o(1), Return(Num(5)), t(2))}, {While(o(1), Return(Num(6)))}, {Switch(o(1), Block(CaseS(1, Return(Num(7)))))}, {If(o(1), Return(Num(1)), Return(Num(2)))}, {Return(nil)}, {Label("e", Null())}, {Ex(Num(5))}, {If(o(1), Null(), nil)}, {Goto("z"), t(9), Label("z", Null())}} {
		f := fn("f#", nil, b...)
		u := &Unit{Funcs: []*Func{f, fn("p#", nil, tcall(Call("f#")), Return(Bin("+", Call("f#"), Num(10))))}}
		if !yield(prog(fmt.Sprintf("falloff %d", i), u, Tight, bit, 4)) {
			return
		}
		// a body that is a single statement
		if len(b) == 1 {
			u := &Unit{Funcs: []*Func{{Name: "f#", Body: b[0]}, fn("p#", nil, tcall(Call("f#")), Return(Bin("+", Call("f#"), Num(10))))}}
			if !yield(prog(fmt.Sprintf("single body %d", i), u, Tight, bit, 4)) {
				return
			}
		}
	}
}
