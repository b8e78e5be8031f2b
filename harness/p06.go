package main

import (
	"fmt"
	"os"
	"strings"
)

func init() { checks["P06"] = checkP06 }

// rawByte is the source text of one byte of a literal, written as itself.
func rawByte(b byte) string {
	if b == '#' {
		return hashMark
	}
	return string([]byte{b})
}

var escapes = []string{"*0", "*e", "**", "*'", "*\"", "*(", "*)", "*t", "*n", "*r"}

// strUnit: one program that reports the bytes of many strings.
type litBatch struct {
	key   string
	stmts []*Stmt
	n     int
	yield func(*Case) bool
}

func (l *litBatch) flush() bool {
	if len(l.stmts) == 0 {
		return true
	}
	u := &Unit{Funcs: []*Func{fn("p#", nil, l.stmts...)}}
	l.stmts = nil
	l.n++
	return l.yield(prog(fmt.Sprintf("%s %d", l.key, l.n), u, Tight, domPos, 0))
}

func (l *litBatch) add(s *Stmt) bool {
	l.stmts = append(l.stmts, s)
	if len(l.stmts) >= 80 {
		return l.flush()
	}
	return true
}

func strLit(body string) (*Expr, int) {
	src := "\"" + body + "\""
	return Lit(src, 0), len(decodeString(src))
}

// hashOf reports all bytes of a string including its final zero.
func hashOf(body string) *Stmt {
	e, n := strLit(body)
	return Ex(Call("h", e, Num(int64(n+1))))
}

func chLit(body string) *Expr {
	src := "'" + body + "'"
	v, ok := parseConst(src)
	if !ok {
		panic("reference: constant " + src)
	}
	return Lit(src, v)
}

func checkP06(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "states: nodes of the reference machine; programs hold every byte value at every position of short literals, every sequence of escapes and special bytes up to the stated length, every digit string up to the stated length and all boundary numbers, in every place a constant is allowed; rejected texts are all undefined escapes and all truncations"
	c.Assumptions = []string{"the digits 8 and 9 in an octal number and the empty character constant are not used"}
	c.Extra["bounds"] = map[string]any{"bytes of strings": "all pairs", "digits": 5}
	var all []byte
	for b := 0; b < 256; b++ {
		if b != '"' && b != '*' {
			all = append(all, byte(b))
		}
	}
	c.RunCases(BatchOpts{MaxCases: 60, MaxBytes: 150000, Every: Pick(c, 4, 1)}, func(yield func(*Case) bool) {
		l := &litBatch{yield: yield}
		part := func(key string) bool {
			ok := l.flush()
			l.key, l.n = key, 0
			c.Phase(key)
			return ok
		}
		// --- strings: every byte at each of three positions; every pair; triples of special bytes
		part("string bytes")
		for _, b := range all {
			for _, pat := range []string{"%s", "a%s", "%sb", "a%sb", "%s0", "/%s"} {
				if !l.add(hashOf(strings.Replace(pat, "%s", rawByte(b), 1))) {
					return
				}
			}
		}
		part("string pairs")
		first := all
		for _, a := range first {
			for _, b := range all {
				if !l.add(hashOf(rawByte(a) + rawByte(b))) {
					return
				}
			}
		}
		part("string escapes")
		toks := append([]string(nil), escapes...)
		for _, b := range []byte{'a', '0', '\'', 0xc3, 10, '(', '/'} {
			toks = append(toks, rawByte(b))
		}
		for _, a := range toks {
			for _, b := range toks {
				if !l.add(hashOf(a + b)) {
					return
				}
				for _, d := range toks {
					if !l.add(hashOf(a + b + d)) {
						return
					}
				}
			}
		}
		part("string lengths")
		lens := []int{}
		for n := 0; n <= 300; n++ {
			lens = append(lens, n)
		}
		for _, n := range []int{511, 512, 513, 1023, 1024, 1025, 4095, 4096, 4097, 8191, 8192, 8193, 16384, 65535, 65536, 65537} {
			lens = append(lens, n)
		}
		for _, n := range lens {
			var s strings.Builder
			for i := 0; i < n; i++ {
				b := byte(i*7 + n)
				if b == '"' || b == '*' {
					b = 'x'
				}
				s.WriteString(rawByte(b))
			}
			l.add(hashOf(s.String()))
			if n > 300 {
				e := strings.Repeat("*n", n/2) + strings.Repeat("*(", n-n/2)
				l.add(hashOf(e))
			}
			if n > 1000 && !l.flush() {
				return
			}
		}
		// several strings in one function stay apart; equal ones compare equal byte by byte
		part("several strings")
		for k := 1; k <= 40; k++ {
			var a []*Expr
			var st []*Stmt
			_ = a
			for i := 0; i < k; i++ {
				st = append(st, hashOf(fmt.Sprintf("s%d%s", i, strings.Repeat("y", i%9))))
			}
			st = append(st, hashOf("s0"), hashOf(""), hashOf("s1y"))
			l.stmts = st
			if !l.flush() {
				return
			}
		}
		// --- character constants: every byte at every position
		part("character bytes")
		var group []*Expr
		report := func(e *Expr) bool {
			group = append(group, e)
			if len(group) == 12 {
				s := Ex(Call("n", append([]*Expr{Num(12)}, group...)...))
				group = nil
				l.stmts = append(l.stmts, s)
				if len(l.stmts) >= 7 {
					return l.flush()
				}
			}
			return true
		}
		endGroup := func() bool {
			if len(group) > 0 {
				l.stmts = append(l.stmts, Ex(Call("n", append([]*Expr{Num(int64(len(group)))}, group...)...)))
				group = nil
			}
			return l.flush()
		}
		for n := 1; n <= 8; n++ {
			for pos := 0; pos < n; pos++ {
				for b := 0; b < 256; b++ {
					if b == '\'' || b == '*' {
						continue
					}
					if !c.Thorough() && n > 3 && b != 0x80 && b != 0xff && b%5 != pos%5 {
						continue
					}
					s := "ABCDEFGH"[:pos] + rawByte(byte(b)) + "abcdefgh"[pos+1:n]
					if !report(chLit(s)) {
						return
					}
				}
				for _, e := range escapes {
					if !report(chLit("ABCDEFGH"[:pos] + e + "abcdefgh"[pos+1:n])) {
						return
					}
				}
			}
		}
		if !endGroup() {
			return
		}
		part("character sequences")
		ctoks := append([]string(nil), escapes...)
		for _, b := range []byte{0, '"', 'z', '/', 0x80, 0xff, 10} {
			ctoks = append(ctoks, rawByte(b))
		}
		for _, a := range ctoks {
			for _, b := range ctoks {
				if !report(chLit(a+b)) || !report(chLit(b+"xyzuvw"+a)) || !report(chLit("123456"+a+b)) || !report(chLit(a+b+"123456")) {
					return
				}
				for _, d := range ctoks {
					if !report(chLit(a + b + d)) {
						return
					}
				}
			}
		}
		for _, a := range ctoks {
			for n := 1; n <= 8; n++ {
				if !report(chLit(strings.Repeat(a, n))) {
					return
				}
			}
		}
		if !endGroup() {
			return
		}
		// --- numbers in expressions
		part("digit strings")
		for n := 1; n <= Pick(c, 5, 6); n++ {
			lim := 1
			for i := 0; i < n; i++ {
				lim *= 10
			}
			for k := 0; k < lim; k++ {
				s := fmt.Sprintf("%0*d", n, k)
				if s[0] == '0' && strings.ContainsAny(s, "89") {
					continue
				}
				v, _ := parseConst(s)
				if !report(Lit(s, v)) {
					return
				}
			}
		}
		if !endGroup() {
			return
		}
		part("boundary numbers")
		nums := boundaryNumbers()
		for _, s := range nums {
			v, _ := parseConst(s)
			if !report(Lit(s, v)) || !report(Un("-", Lit(s, v))) {
				return
			}
		}
		if !endGroup() {
			return
		}
		// --- constants in the other places: initializers (scalar, list, vector, negated), case labels, sizes
		part("places")
		type con struct {
			src string
			val int64
		}
		var cons []con
		for _, s := range nums {
			v, _ := parseConst(s)
			cons = append(cons, con{s, v})
		}
		for n := 1; n <= 3; n++ {
			lim := []int{10, 100, 1000}[n-1]
			for k := 0; k < lim; k++ {
				s := fmt.Sprintf("%0*d", n, k)
				if s[0] == '0' && strings.ContainsAny(s, "89") || n == 3 && s[0] != '0' && k%7 != 0 {
					continue
				}
				v, _ := parseConst(s)
				cons = append(cons, con{s, v})
			}
		}
		for b := 0; b < 256; b++ {
			if b == '\'' || b == '*' {
				continue
			}
			for _, pat := range []string{"'%s'", "'a%s'", "'%s.......'", "'.......%s'"} {
				s := strings.Replace(pat, "%s", rawByte(byte(b)), 1)
				cons = append(cons, con{s, chLit(s[1 : len(s)-1]).Val})
			}
		}
		for _, a := range ctoks {
			for _, b := range ctoks {
				s := "'" + a + b + "'"
				cons = append(cons, con{s, chLit(s[1 : len(s)-1]).Val})
			}
		}
		// groups of 10 constants per program
		for i := 0; i < len(cons); i += 10 {
			g := cons[i:min(i+10, len(cons))]
			u := &Unit{}
			var st, rep []*Stmt
			vec := &Glob{Name: "V#", Vec: true, Size: -1}
			lst := &Glob{Name: "L#", Size: -1}
			neg := &Glob{Name: "M#", Vec: true, Size: 2}
			st = append(st, Extrn("V#", "L#", "M#"))
			for k, x := range g {
				nm := fmt.Sprintf("S%d_#", k)
				u.Globs = append(u.Globs, &Glob{Name: nm, Size: -1, Inits: []Init{{Src: x.src, Val: x.val}}})
				st = append(st, Extrn(nm))
				vec.Inits = append(vec.Inits, Init{Src: x.src, Val: x.val})
				lst.Inits = append(lst.Inits, Init{Src: x.src, Val: x.val})
				if x.src[0] != '\'' {
					neg.Inits = append(neg.Inits, Init{Src: "-" + x.src, Val: -x.val})
				} else {
					neg.Inits = append(neg.Inits, Init{Src: x.src, Val: x.val})
				}
				rep = append(rep, Ex(Call("n", Num(5), V(nm), Idx(V("V#"), Num(int64(k))), Idx(Paren(Addr(V("L#"))), Num(int64(k))), Idx(V("M#"), Num(int64(k))), Lit(x.src, x.val))))
			}
			u.Globs = append(u.Globs, vec, lst, neg)
			u.Funcs = []*Func{fn("p#", nil, append(st, rep...)...)}
			if !yield(prog(fmt.Sprintf("initializers %q", g[0].src), u, Tight, domPos, 0)) {
				return
			}
			// case labels: select by every value of the group
			seen := map[int64]bool{}
			var cs []*Stmt
			var dom []int64
			for k, x := range g {
				if seen[x.val] {
					continue
				}
				seen[x.val] = true
				dom = append(dom, x.val)
				s := CaseS(x.val, Return(Num(int64(k+1))))
				s.Src = x.src
				cs = append(cs, s)
			}
			for _, x := range g {
				for _, y := range []int64{x.val + 1, x.val - 1, -x.val} {
					if !seen[y] {
						seen[y] = true
						dom = append(dom, y)
					}
				}
			}
			u = &Unit{Funcs: []*Func{fn("p#", nil, Switch(Call("c"), Block(cs...)), Return(Num(99)))}}
			if !yield(prog(fmt.Sprintf("cases %q", g[0].src), u, Tight, dom, 1)) {
				return
			}
		}
		// sizes: the distance between the vector's words and the next cell cannot be observed,
		// but every word up to the size must be usable
		for _, s := range []string{"0", "00", "1", "01", "7", "07", "8", "010", "011", "017", "020", "0100", "64", "077", "100", "0144", "0200", "'*t'", "' '", "'A'", "'*n'"} {
			v, _ := parseConst(s)
			w := max(v, 1)
			loop := func(nm string) []*Stmt {
				return []*Stmt{set(V("i"), Num(0)), While(Bin("<", V("i"), Num(w)), Block(set(Idx(V(nm), V("i")), Bin("*", V("i"), Num(3))), Ex(Inc(KPostInc, V("i"))))), set(V("i"), Num(0)),
					While(Bin("<", V("i"), Num(w)), Block(If(Bin("!=", Idx(V(nm), V("i")), Bin("*", V("i"), Num(3))), tcall(V("i")), nil), Ex(Inc(KPostInc, V("i")))))}
			}
			gs := s
			if s[0] == '\'' { // a character constant is not allowed as size of an external vector
				gs = ""
			}
			u := &Unit{Globs: []*Glob{{Name: "A#", Vec: true, Size: v, Src: gs}, {Name: "B#", Size: -1, Inits: []Init{numInit(77)}}}, Funcs: []*Func{
				fn("p#", nil, append(append([]*Stmt{Auto(Decl{Name: "i"}, Decl{Name: "v", Vec: true, Size: v, Src: s}, Decl{Name: "u", Vec: true, Size: v, Src: s}), Extrn("A#", "B#")}, append(loop("A#"), loop("v")...)...), append(loop("u"), tcall(V("B#")), tcall(Idx(V("v"), Num(w-1))), tcall(Idx(V("A#"), Num(w-1))))...)...)}}
			if !yield(prog("size "+s, u, Tight, domPos, 0)) {
				return
			}
		}
		// --- strings in the other places
		part("string places")
		bodies := []string{"", "a", "abcdefg", "abcdefgh", "abcdefghi", "*n*t*e*(", "\xc3\xa9\xff", "0", "it's", "/** no **/", strings.Repeat("z", 100), "*0*0", hashMark, "a;b,c]", "%d\\n"}
		for i, b1 := range bodies {
			for j, b2 := range bodies {
				e1, n1 := strLit(b1)
				e2, n2 := strLit(b2)
				h := func(e *Expr, n int) *Stmt { return Ex(Call("h", e, Num(int64(n+1)))) }
				ini := func(e *Expr) Init { return Init{Src: e.Name, IsStr: true, Str: decodeString(e.Name)} }
				u := &Unit{Globs: []*Glob{
					{Name: "A#", Size: -1, Inits: []Init{ini(e1)}},
					{Name: "B#", Vec: true, Size: -1, Inits: []Init{ini(e1), numInit(5), ini(e2), numInit(-6)}},
					{Name: "C#", Size: -1, Inits: []Init{numInit(9), ini(e2), ini(e1)}},
					{Name: "D#", Vec: true, Size: 4, Inits: []Init{ini(e2)}},
				}, Funcs: []*Func{
					fn("q#", []string{"s"}, Return(V("s"))),
					fn("r#", nil, Return(e2)),
					fn("p#", nil, Extrn("A#", "B#", "C#", "D#"), Auto(Decl{Name: "x"}, Decl{Name: "w", Vec: true, Size: 2}),
						h(V("A#"), n1), h(Idx(V("B#"), Num(0)), n1), h(Idx(V("B#"), Num(2)), n2), tcall(Idx(V("B#"), Num(1))), tcall(Idx(V("B#"), Num(3))),
						tcall(V("C#")), h(Idx(Paren(Addr(V("C#"))), Num(1)), n2), h(Idx(Paren(Addr(V("C#"))), Num(2)), n1),
						h(Idx(V("D#"), Num(0)), n2), tcall(Idx(V("D#"), Num(1))), tcall(Idx(V("D#"), Num(3))),
						set(V("x"), e1), h(V("x"), n1), set(Idx(V("w"), Num(1)), e2), h(Idx(V("w"), Num(1)), n2),
						h(Call("q#", e1), n1), h(Call("r#"), n2), h(Cond(Call("c"), e1, e2), min(n1, n2)-1),
						h(Paren(Bin("+", e1, Num(int64(n1/2)))), n1-n1/2)),
				}}
				if !yield(prog(fmt.Sprintf("string places %d %d", i, j), u, Tight, []int64{0, 1}, 1)) {
					return
				}
			}
		}
		part("end")
	})
	c.Phase("rejections")
	p06reject(c)
}

func boundaryNumbers() []string {
	var nums []string
	for k := uint(0); k < 64; k++ {
		v := uint64(1) << k
		for _, x := range []uint64{v - 1, v, v + 1} {
			nums = append(nums, fmt.Sprintf("%d", x), fmt.Sprintf("0%o", x), fmt.Sprintf("000%o", x))
		}
	}
	nums = append(nums, "18446744073709551615", "18446744073709551616", "18446744073709551617", "36893488147419103233", "99999999999999999999", "123456789012345678901234567890",
		"01777777777777777777777", "02000000000000000000000", "02000000000000000000001", "07777777777777777777777777", "9223372036854775807", "9223372036854775808", "9223372036854775809", "00", "0000000000000000000000000000000000000000017",
		"10", "100", "1000", "1000000000000000000", "10000000000000000000", "1"+strings.Repeat("0", 40), strings.Repeat("7", 60), "0"+strings.Repeat("7", 60))
	return nums
}

// p06reject: texts that must be rejected with a diagnostic, and shifts of the
// source text that must not change a literal.
func p06reject(c *Ctx) {
	pool := c.NewPool()
	defer pool.Close()
	type item struct {
		src  []byte
		kind string
		base string // for shifted texts: the code of the unshifted text
	}
	var n, rejected int64
	_ = n
	esc := "0e*'\"()tnr"
	wraps := []struct{ name, text string }{
		{"return", "main(){return(%s);}\n"}, {"argument", "main(){f(%s,1);}\n"}, {"scalar", "x %s;\nmain(){}\n"}, {"list", "x 1,%s,2;\nmain(){}\n"}, {"vector", "x[3] %s;\nmain(){}\n"},
		{"case", "main(){switch(1){case %s: f();}}\n"}, {"size", "x[%s];\nmain(){}\n"}, {"auto size", "main(){auto v[%s];}\n"},
	}
	gen := func(yield func(item) bool) {
		for _, w := range wraps {
			quotes := "'\""
			if w.name == "case" || strings.HasSuffix(w.name, "size") {
				quotes = "'"
			}
			for _, q := range quotes {
				for b := 0; b < 256; b++ {
					if strings.IndexByte(esc, byte(b)) >= 0 {
						continue
					}
					for _, pat := range []string{"*%", "a*%", "*%a", "***%", "*n*%"} {
						t := string(q) + strings.Replace(pat, "%", string([]byte{byte(b)}), 1) + string(q)
						if !yield(item{src: []byte(strings.Replace(w.text, "%s", t, 1)), kind: "undefined escape"}) {
							return
						}
					}
				}
			}
			// too many characters
			for k := 9; k <= 40; k++ {
				for _, u := range []string{"a", "*n", "\xff", "**"} {
					if !yield(item{src: []byte(strings.Replace(w.text, "%s", "'"+strings.Repeat(u, k)+"'", 1)), kind: "more than eight characters"}) {
						return
					}
				}
			}
			// every truncation inside a literal; and the literal left open with the rest of the program following
			for _, lit := range []string{"'a'", "'abcdefgh'", "'*n*t'", "'*''", "\"\"", "\"abc\"", "\"a*\"b\"", "\"/** x **/\"", "\"\xc3\xa9*n\"", "'**'"} {
				if quotes == "'" && lit[0] == '"' {
					continue
				}
				i := strings.Index(w.text, "%s")
				for k := 1; k < len(lit); k++ {
					if !yield(item{src: []byte(w.text[:i] + lit[:k]), kind: "unterminated literal"}) {
						return
					}
				}
				rest := w.text[i+2:]
				if lit[0] == '\'' && len(rest) < 6 {
					rest += "main(){ }"
				}
				if !strings.HasSuffix(lit[:len(lit)-1], "*") && !yield(item{src: []byte(w.text[:i] + lit[:len(lit)-1] + rest), kind: "unterminated literal"}) {
					return
				}
			}
		}
		// shifted texts: literals at every offset around the sizes of read buffers
		lits := []string{"\"abc*n\xc3\xa9\xe2\x82\xac\xffz\"", "'*e\xffab*)'", "123456789012", "0123456", "\"*\"*'***(*)\""}
		body := "main() { return(f("
		for i, l := range lits {
			if i > 0 {
				body += ", "
			}
			body += l
		}
		body += ")); }\nx[5] "
		body += strings.Join(lits[:4], ", ") + ";\n"
		base := pool.One(Req{Mode: 'C', FailAt: -1, Files: [][]byte{[]byte(body)}})
		if base.St != 'A' {
			c.Violation("shift base", fmt.Sprintf("valid program rejected: %q: %s", body, base.Out), nil)
			return
		}
		for _, size := range Pick(c, []int{512, 1024, 4096, 8192, 16384, 32768, 65536}, []int{64, 128, 256, 512, 1024, 2048, 4096, 8192, 16384, 32768, 65536, 131072, 1 << 20}) {
			for k := size - len(body) - 3; k <= size+3; k++ {
				if k < 0 {
					continue
				}
				if !yield(item{src: []byte(strings.Repeat("\n", k) + body), base: base.Out}) {
					return
				}
			}
		}
		// truncating a program at every byte never gives a literal that ends at the end of the file
	}
	Stream(c, pool, gen, func(t item) Req { return Req{Mode: 'C', FailAt: -1, Files: [][]byte{t.src}} }, func(t item, v Verdict) {
		c.States.Add(1)
		c.Traces.Add(1)
		if t.base != "" {
			if v.St == 'A' && v.Out == t.base {
				c.Outcome("shifted texts with the same code", 1)
				return
			}
			for k := 0; k < 5; k++ {
				if r := c.realRun(t.src); r.Code == 0 && string(r.Out) == string(c.realRun([]byte(strings.TrimLeft(string(t.src), "\n"))).Out) {
					return
				}
			}
			c.Violation("shift", fmt.Sprintf("literals change when %d newlines precede the program", strings.Count(string(t.src), "\n")-3), map[string]string{"prog.b": string(t.src)})
			return
		}
		if v.St == 'R' && v.Out != "" {
			c.Outcome("rejected texts", 1)
			rejected++
			return
		}
		for k := 0; k < 5; k++ {
			if r := c.realRun(t.src); r.Code == 1 && len(r.Err) > 0 {
				return
			}
		}
		c.Violation(t.kind+fmt.Sprintf(" %q", t.src), fmt.Sprintf("%s is not rejected with a diagnostic (%c):\n%q", t.kind, v.St, t.src), map[string]string{"prog.b": string(t.src)})
	})
	_ = os.Stdout
}
