package main

import (
	"fmt"
	"strings"
)

// p15long: names are significant in their whole length: pairs of long names
// that differ at one place, or of which one is the beginning of the other, used
// as every kind of thing at once. (LLVM cuts names of local values at 1024
// characters, so longer ones are not asked of the compiler.)
func p15long(c *Ctx, yield func(*Case) bool) {
	const fill = "abcdefghijklmnopqrstuvwxyz_ABCDEFGHIJKLMNOPQRSTUVWXYZ0123456789"
	lens := []int{2, 3, 4, 5, 6, 7, 8, 9, 12, 15, 16, 17, 24, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 511, 512, 1000}
	if c.Thorough() {
		lens = nil
		for l := 2; l <= 300; l++ {
			lens = append(lens, l)
		}
		lens = append(lens, 511, 512, 513, 1000)
	}
	serial := 0
	stem := func(l int) []byte {
		b := make([]byte, l)
		for i := range b {
			b[i] = fill[i%len(fill)]
		}
		return b
	}
	emit := func(key, a, b string, global bool) bool {
		n, v := Num, V
		t := func(e *Expr) *Stmt { return tcall(e) }
		scalar := func(s string) Decl { return Decl{Name: s} }
		u := &Unit{Funcs: []*Func{
			// locals, parameters, labels
			fn("q#", []string{a, "x", b}, t(v(a)), t(v(b)), set(v(a), n(5)), t(v(b)), Return(Bin("-", v(b), v(a)))),
			fn("r#", nil, Auto(scalar(b), scalar("i"), scalar(a)), set(v(a), n(1)), set(v(b), n(2)), t(v(a)), t(v(b)),
				Label(a, Ex(Inc(KPreInc, v(a)))), t(v(a)), If(Bin("<", v(a), n(3)), Goto(a), nil), Label(b, Ex(Inc(KPreInc, v(b)))), If(Bin("<", v(b), n(5)), Goto(b), nil), t(v(a)), Return(v(b))),
			fn("p#", nil, t(Call("q#", n(11), n(12), n(13))), t(Call("r#")), Return(n(0))),
		}}
		if global {
			u.Globs = []*Glob{{Name: a, Size: -1, Inits: []Init{numInit(21)}}, {Name: b, Size: -1, Inits: []Init{numInit(22)}}}
			u.Funcs = append(u.Funcs, fn("s#", nil, Extrn(a), t(v(a)), set(v(a), n(31)), Return(v(a))), fn("w#", nil, Extrn(b, a), t(v(b)), t(v(a)), set(v(b), n(32)), Return(v(a))))
			u.Funcs[2].Body.List = append([]*Stmt{t(Call("s#")), t(Call("w#")), t(Call("s#")), t(Call("w#"))}, u.Funcs[2].Body.List...)
			// functions, and a label, by the same names with a letter before
			fa, fb := "F"+a[:len(a)-1], "F"+b[:len(b)-1]
			if fa != fb {
				u.Funcs = append(u.Funcs, fn(fa, []string{"x"}, Return(Bin("+", v("x"), n(100)))), fn(fb, []string{"x"}, Return(Bin("+", v("x"), n(200)))))
				u.Funcs[2].Body.List = append([]*Stmt{t(Call(fa, n(1))), t(Call(fb, n(1)))}, u.Funcs[2].Body.List...)
			}
		}
		return yield(prog("names:"+key, u, Tight, []int64{0}, 0))
	}
	for _, l := range lens {
		for p := 0; p < l; p++ {
			if l > 260 || l > 40 && !c.Thorough() {
				near := p < 2 || p >= l-2 || p == l/2
				for _, k := range []int{8, 16, 31, 32, 63, 64, 127, 128, 255, 256, 511, 512, 1023, 1024} {
					near = near || p == k-1 || p == k
				}
				if !near {
					continue
				}
			}
			a := stem(l)
			if l >= 16 {
				// the number of the pair, so that names of different programs differ
				num := fmt.Sprintf("%06d", serial)
				if p > 7 {
					copy(a[1:], num)
				} else {
					copy(a[l-7:], num)
				}
			}
			serial++
			b := append([]byte(nil), a...)
			b[p] = 'Q'
			if string(a) == string(b) {
				fatal("names")
			}
			if !emit(fmt.Sprintf("length %d place %d", l, p), string(a), string(b), l >= 16) {
				return
			}
		}
		a := string(stem(l))
		if !emit(fmt.Sprintf("length %d longer", l), a, a+"z", false) || !emit(fmt.Sprintf("length %d upper", l), a, strings.ToUpper(a[:1])+a[1:], false) {
			return
		}
	}
}

// keywordLike are the keywords in other letters, or with something missing or added.
func keywordLike() (l []string) {
	for _, k := range []string{"auto", "extrn", "if", "else", "while", "switch", "case", "goto", "return"} {
		mixed := []byte(k)
		for i := 1; i < len(k); i += 2 {
			mixed[i] -= 32
		}
		l = append(l, strings.ToUpper(k[:1])+k[1:], strings.ToUpper(k), string(mixed), k[:len(k)-1]+strings.ToUpper(k[len(k)-1:]), k[1:], k[:len(k)-1], k+"_", "_"+k, k+"0", k+k, k+k[len(k)-1:], k[:1]+k, k[:1]+"_"+k[1:])
	}
	return append(l, "extern", "Extern", "register", "int", "char", "void", "for", "do", "break", "default", "continue", "next", "sizeof", "then", "fi", "label", "begin", "repeat", "static", "const", "struct", "func", "var", "type", "import", "package", "nil", "true", "false")
}

// p15kinds: each of the names as function, label, parameter, automatic and
// external variable, at the places where a statement or a definition begins.
func p15kinds(list []string, external bool, yield func(*Case) bool) {
	n, v := Num, V
	t := func(k int64) *Stmt { return tcall(n(k)) }
	done := map[string]bool{}
	for _, nm := range list {
		if done[nm] || keywords[nm] || !isName(nm) || driverName(nm) {
			continue
		}
		done[nm] = true
		u := &Unit{}
		if external {
			u.Globs = []*Glob{{Name: nm, Size: -1, Inits: []Init{numInit(21)}}}
			u.Funcs = []*Func{
				fn("e#", nil, Extrn(nm), Ex(Inc(KPreInc, v(nm))), tcall(v(nm)), Ex(Asg("", v(nm), n(5))), Ex(Asg("+", v(nm), n(1))), Return(v(nm))),
				fn("p#", nil, Extrn(nm), tcall(v(nm)), tcall(Call("e#")), Ex(Inc(KPostInc, v(nm))), Return(v(nm))),
			}
		} else {
			u.Funcs = []*Func{
				fn(nm, []string{"x"}, t(90), Return(Bin("+", v("x"), n(100)))),
				fn("a#", []string{nm}, Ex(Asg("", v(nm), Bin("+", v(nm), n(1)))), Ex(Inc(KPostInc, v(nm))), If(Bin(">", v(nm), n(3)), Ex(Asg("", v(nm), n(2))), Ex(Inc(KPreDec, v(nm)))), Return(v(nm))),
				fn("b#", nil, Auto(Decl{Name: nm}, Decl{Name: "own_"}), Ex(Asg("", v(nm), n(4))), While(Bin("<", v("own_"), n(2)), Ex(Inc(KPostInc, v("own_")))), Ex(Inc(KPostInc, v(nm))), tcall(v(nm)), Return(v(nm))),
				fn("l#", nil, Auto(Decl{Name: "own_"}), Label(nm, Ex(Inc(KPreInc, v("own_")))), tcall(v("own_")), If(Bin("<", v("own_"), n(3)), Goto(nm), nil), Return(v("own_"))),
				fn("m#", nil, Goto(nm), t(1), Label(nm, t(2)), Return(n(3))),
				fn("w#", nil, Switch(Call("c"), Block(CaseS(0, t(3)), Label(nm, t(4)), CaseS(1, Ex(Call(nm, n(1)))))), Ex(Call(nm, n(2))), If(Call("c"), Ex(Call(nm, n(3))), Ex(Call(nm, n(4)))), tcall(Call(nm, n(5))), Return(Call(nm, Call(nm, n(6))))),
				fn("p#", nil, Ex(Call(nm, n(1))), t(5), tcall(Call("a#", n(1))), tcall(Call("a#", n(7))), tcall(Call("b#")), tcall(Call("l#")), tcall(Call("m#")), tcall(Call("w#")), Return(Call(nm, n(8)))),
			}
		}
		for _, sp := range []Spacing{Tight, Loose} {
			if sp == Loose && external {
				continue
			}
			u2 := *u
			if sp == Loose { // without the function, whose name is taken
				u2.Funcs = u.Funcs[1:5]
				u2.Funcs = append(u2.Funcs[:4:4], fn("p#", nil, tcall(Call("a#", n(1))), tcall(Call("b#")), tcall(Call("l#")), tcall(Call("m#"))))
			}
			if !yield(prog("name "+nm, &u2, sp, []int64{0, 1, 2}, 2)) {
				return
			}
		}
	}
}

// driverName: the name is taken by the test driver or the library.
func driverName(nm string) bool {
	for _, s := range strings.Fields("t c o n d b h xsub3 zz main char lchar exit printf printn putchar read write nread nwrite getchar putstr flush fout") {
		if s == nm {
			return true
		}
	}
	return false
}

// p15many: many names of one kind at once; each keeps what it denotes.
func p15many(c *Ctx, yield func(*Case) bool) {
	n, v := Num, V
	for _, k := range Pick(c, []int{1, 2, 3, 7, 8, 9, 15, 16, 17, 31, 32, 33, 63, 64, 65, 100, 127, 128, 129, 255, 256, 257, 512, 1000}, func() (l []int) {
		for i := 1; i <= 300; i++ {
			l = append(l, i)
		}
		return append(l, 511, 512, 513, 1000, 1023, 1024, 1025, 3000)
	}()) {
		name := func(p string, i int) string { return fmt.Sprintf("%s%d", p, i) }
		var autos, autos1, set1, get1, gets, labs, calls []*Stmt
		var ds []Decl
		var params, ext []string
		var args []*Expr
		u := &Unit{}
		for i := 0; i < k; i++ {
			ds = append(ds, Decl{Name: name("a", i)})
			autos1 = append(autos1, Auto(Decl{Name: name("b", i)}))
			set1 = append(set1, set(v(name("a", i)), n(int64(i*3+1))), set(v(name("b", i)), n(int64(i*5+2))))
			params = append(params, name("p", i))
			args = append(args, n(int64(i*7+3)))
			ext = append(ext, name("g", i)+"#")
			u.Globs = append(u.Globs, &Glob{Name: name("g", i) + "#", Size: -1, Inits: []Init{numInit(int64(i*11 + 4))}})
			u.Funcs = append(u.Funcs, fn(name("f", i)+"#", []string{"x"}, Return(Bin("+", v("x"), n(int64(i))))))
			labs = append(labs, Label(name("l", (i*7)%k), Ex(Inc(KPostInc, v("z")))))
		}
		seen := map[string]bool{}
		for _, l := range labs {
			if seen[l.Name] {
				labs = nil
				for i := 0; i < k; i++ {
					labs = append(labs, Label(name("l", i), Ex(Inc(KPostInc, v("z")))))
				}
				break
			}
			seen[l.Name] = true
		}
		autos = append(autos, Auto(ds...))
		dump := func(p, s string) (l []*Stmt) {
			for i := 0; i < k; i += 8 {
				a := []*Expr{n(int64(min(8, k-i)))}
				for j := i; j < k && j < i+8; j++ {
					a = append(a, v(name(p, j)+s))
				}
				l = append(l, Ex(Call("n", a...)))
			}
			return
		}
		get1 = append(dump("a", ""), dump("b", "")...)
		gets = append(append([]*Stmt{Extrn(ext...)}, dump("g", "#")...), set(v(ext[k/2]), n(77)))
		gets = append(gets, dump("g", "#")...)
		for _, i := range []int{0, 1, k / 3, k / 2, k - 2, k - 1} {
			if i >= 0 && i < k {
				calls = append(calls, tcall(Call(name("f", i)+"#", n(1000))))
				// jump over the labels before it
				lb := append([]*Stmt{Auto(Decl{Name: "z"}), Goto(name("l", i))}, labs...)
				u.Funcs = append(u.Funcs, fn(fmt.Sprintf("j%d#", i), nil, append(lb, Return(v("z")))...))
				calls = append(calls, tcall(Call(fmt.Sprintf("j%d#", i))))
			}
		}
		u.Funcs = append(u.Funcs,
			fn("au#", nil, append(append(append(autos, autos1...), set1...), append(get1, Return(n(1)))...)...),
			fn("pa#", params, append(dump("p", ""), set(v("p0"), n(9)), tcall(v(params[k-1])), Return(v(params[k/2])))...),
			fn("gl#", nil, append(gets, Return(n(2)))...))
		names := map[string]bool{}
		fs := u.Funcs[:0]
		for _, f := range u.Funcs {
			if !names[f.Name] {
				names[f.Name] = true
				fs = append(fs, f)
			}
		}
		u.Funcs = append(fs, fn("p#", nil, append(calls, tcall(Call("au#")), tcall(Call("au#")), tcall(Call("pa#", args...)), tcall(Call("gl#")), tcall(Call("gl#")), Return(n(0)))...))
		if !yield(prog(fmt.Sprintf("names:%d of each kind", k), u, Tight, []int64{0}, 0)) {
			return
		}
	}
}

// p15lists: declarations of names among several parameters and in lists: every
// list of up to four names of a function with three parameters.
func p15lists(c *Ctx, yield func(p15text2) bool) {
	names := []string{"p", "q", "r", "a", "b"}
	var lists [][]string
	var rec func(cur []string)
	rec = func(cur []string) {
		if len(cur) > 0 {
			lists = append(lists, append([]string(nil), cur...))
		}
		if len(cur) == 3 {
			return
		}
		for _, n := range names {
			rec(append(cur, n))
		}
	}
	rec(nil)
	for np := 0; np <= 3; np++ {
		head := "f(" + strings.Join(names[:np], ",") + "){"
		emit := func(name, body string, decls ...string) bool {
			seen := map[string]bool{}
			ver := byte('A')
			for _, p := range names[:np] {
				seen[p] = true
			}
			for _, d := range decls {
				if seen[d] {
					ver = 'R'
				}
				seen[d] = true
			}
			return yield(p15text2{fmt.Sprintf("lists %d %s", np, name), head + body + "}\n", ver, int64(1 + np + len(decls))})
		}
		for _, l := range lists {
			t := strings.Join(l, ",")
			vec := strings.Join(l, "[2],") + "[2]"
			for i, b := range []string{"auto %;", "auto ^;", "{auto %;}", "if(1)auto %;", "while(0)auto %;", "L:auto %;", "return;auto %;", "switch(1){auto %;}", "if(1);else{{auto ^;}}"} {
				if !emit(fmt.Sprintf("%d %s", i, t), strings.NewReplacer("%", t, "^", vec).Replace(b), l...) {
					return
				}
			}
			// the same names in statements of their own, apart
			for i, sep := range []string{";auto ", ";{;}auto ", ";L:auto ", ";goto L;L:;auto ", ";if(1){};auto "} {
				if len(l) > 2 && i > 1 || len(l) > 2 && i == 2 {
					continue
				}
				if i >= 2 && strings.Count(strings.Join(l, sep), "L:") > 1 {
					continue
				}
				if !emit(fmt.Sprintf("apart %d %s", i, t), "auto "+strings.Join(l, sep)+";", l...) {
					return
				}
			}
		}
	}
	// a name repeated at any distance in a long list
	for _, k := range Pick(c, []int{3, 5, 9, 17, 33, 65, 130}, []int{3, 4, 5, 6, 7, 8, 9, 16, 17, 32, 33, 64, 65, 66, 128, 129, 130, 256, 257}) {
		var l []string
		for i := 0; i < k; i++ {
			l = append(l, fmt.Sprintf("x%d", i))
		}
		all := strings.Join(l, ",")
		if !yield(p15text2{fmt.Sprintf("lists of %d", k), "f(" + all + "){g(" + all + ");}h(){auto " + all + ";g(" + all + ");}\n", 'A', int64(2 * k)}) {
			return
		}
		for i := 0; i < k; i++ {
			for form, s := range []string{"f(%){auto $;}", "f(){auto %,$;}", "f(){auto %;auto $;}", "f(){auto %;auto $[2];}", "f(){" + strings.ReplaceAll(all, ",", ":;") + ":;$:;}"} {
				if !yield(p15text2{fmt.Sprintf("lists of %d again %d (%d)", k, i, form), strings.NewReplacer("%", all, "$", l[i]).Replace(s) + "\n", 'R', int64(k + 1)}) {
					return
				}
			}
			if !yield(p15text2{fmt.Sprintf("lists of %d missing %d", k, i), "f(){auto " + strings.Join(append(append([]string{"y"}, l[:i]...), l[i+1:]...), ",") + ";" + l[i] + "=1;}\n", 'R', int64(k)}) ||
				!yield(p15text2{fmt.Sprintf("lists of %d no label %d", k, i), "f(){" + strings.Join(append(append([]string{"y"}, l[:i]...), l[i+1:]...), ":;") + ":;goto " + l[i] + ";}\n", 'R', int64(k)}) {
				return
			}
		}
	}
}
