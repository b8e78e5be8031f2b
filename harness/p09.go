package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() { checks["P09"] = checkP09 }

func checkP09(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "evaluations: source texts (all sequences up to the stated lengths of statements, of definitions over two names, of expression tokens; names in every role; all mutations of a corpus); every text the compiler accepts must give a module that LLVM's parser and verifier accept, and the modules of the code generation set must also pass optimization and code generation at every level; distinct_nontrivial: accepted texts whose module differs from all earlier ones"
	c.Assumptions = []string{"LLVM's verifier and code generator run in process (LLVM 18 C interface); a failure is confirmed with the real commands five times before it is reported"}
	pool := c.NewPool()
	defer pool.Close()
	irv := c.NewIRV()
	defer irv.Close()
	var seen sync.Map
	var distinct, accepted, rejected, gen, lost atomic.Int64
	check := func(part string, every uint64, sources func(y func(string) bool)) {
		if c.Stop() {
			return
		}
		Stream(c, pool, sources, func(s string) Req { return Req{Mode: 'C', FailAt: -1, Files: [][]byte{[]byte(s)}} }, func(s string, v Verdict) {
			c.Evals.Add(1)
			if v.St == 'R' {
				rejected.Add(1)
				return
			}
			if v.St != 'A' {
				lost.Add(1) // judged by P08
				return
			}
			accepted.Add(1)
			h := fnv.New64a()
			h.Write([]byte(v.Out))
			k := h.Sum64()
			if _, ok := seen.LoadOrStore(k, true); ok {
				return
			}
			distinct.Add(1)
			c.Distinct.Add(1)
			if len(s) < 200 {
				c.Sample(map[string]any{"accepted text": s, "module bytes": len(v.Out)})
			}
			lv := uint32(0)
			// the sets marked for code generation: every n-th distinct module by its hash
			if every > 0 && k%every == 0 {
				lv = 15
				gen.Add(1)
			}
			if st, msg := irv.Check(v.Out, lv); st != 'A' {
				c.p09confirm(s, st, msg)
			}
		})
		c.Phase(part)
	}
	// --- sequences of statements
	stm := p09stm
	n := Pick(c, 3, 4)
	c.Extra["bounds"] = map[string]any{"statements": len(stm), "statement sequence length": n, "definition sequence length": Pick(c, 2, 3), "expression tokens": Pick(c, 5, 6)}
	check("statements", Pick(c, uint64(40), 10), func(y func(string) bool) {
		var rec func(s string, k int) bool
		rec = func(s string, k int) bool {
			if !y("f(x){" + s + "}") {
				return false
			}
			if k == n {
				return true
			}
			for _, t := range stm {
				if !rec(s+t, k+1) {
					return false
				}
			}
			return true
		}
		rec("", 0)
	})
	// --- nested statements
	check("nested statements", Pick(c, uint64(20), 4), func(y func(string) bool) {
		heads := []string{"%s", "{%s%s}", "if(x)%s", "if(x)%s else %s", "while(x)%s", "switch(x)%s", "switch(x){case 1:%s case 2:%s}", "switch(x){%s case 3:%s}", "N:%s", "{N:%s goto N;}", "{if(x)goto N;%s N:%s}"}
		leaves := []string{";", "return;", "return(x);", "goto L;", "L:;", "x=1;", "case 4:;", "{}", "{auto q;q=x;}", "while(1);"}
		var rec func(d int, yy func(string) bool) bool
		rec = func(d int, yy func(string) bool) bool {
			for _, l := range leaves {
				if !yy(l) {
					return false
				}
			}
			if d == 0 {
				return true
			}
			for _, h := range heads[1:] {
				k := strings.Count(h, "%s")
				dd := d - 1
				ok := rec(dd, func(a string) bool {
					if k == 1 {
						return yy(strings.Replace(h, "%s", a, 1))
					}
					lim := 0
					if c.Thorough() && dd > 0 {
						lim = 1
					}
					return rec(min(lim, dd), func(b string) bool {
						return yy(strings.Replace(strings.Replace(h, "%s", a, 1), "%s", b, 1))
					})
				})
				if !ok {
					return false
				}
			}
			return true
		}
		rec(2, func(s string) bool {
			return y("f(x){"+s+"}") && y("f(x){"+s+"L:x=2;}") && y("f(x){L:"+s+"return(x);}")
		})
	})
	// --- sequences of definitions over two names
	defs := p09defs()
	check("definitions", Pick(c, uint64(8), 20), func(y func(string) bool) {
		for _, a := range defs {
			if !y(a) {
				return
			}
			for _, b := range defs {
				if !y(a + b) {
					return
				}
				if !c.Thorough() && (len(a)+len(b))%4 != 0 {
					continue
				}
				for _, d := range defs {
					if !y(a + b + d) {
						return
					}
				}
			}
		}
	})
	// --- expressions
	etok := []string{"x", "f", "1", "\"s\"", "(", ")", "[", "]", "+", "=", "++", "--", "-", "*", "&", "!", "?", ":", "<", "==", ",", "v", "=+"}
	if !c.Thorough() {
		etok = []string{"x", "f", "1", "(", ")", "[", "]", "+", "=", "++", "-", "*", "&", "!", "?", ":", "<", "==", ","}
	}
	check("expressions", Pick(c, uint64(10), 10), func(y func(string) bool) {
		var rec func(s string, k int) bool
		rec = func(s string, k int) bool {
			if k > 0 && !y("g(x,v){return("+s+");}f(x){}") {
				return false
			}
			if k == Pick(c, 5, 6) {
				return true
			}
			for _, t := range etok {
				sp := ""
				if k > 0 {
					sp = " "
				}
				if !rec(s+sp+t, k+1) {
					return false
				}
			}
			return true
		}
		rec("", 0)
	})
	// --- names in every role
	nm := []string{"a", "i64", "entry", "label", "define", "declare", "global", "ret", "br", "then", "llvm", "main", "_start", "printf", "exit", "a1", "_", "__", "_0", "str", "tmp", "param", "ptr", "null", "void", "undef", "true", "false", "x86", "switch1", "b", "common", "add", "A", "ifx", strings.Repeat("n", 300)}
	roles := []string{"N;", "N 1;", "N[3] 1;", "N(){}", "f(N){return(N);}", "f(){auto N;return(N);}", "f(){auto N[2];return(N[1]);}", "f(){extrn N;return(N);}", "f(){N:goto N;}", "f(){return(N(1));}", "f(){g(N);}", "N(N){N:return(N);}", "N(){N:N();goto N;}", "f(N){N:N(N);goto N;}", "f(){auto N;N:N=1;goto N;}", "f(){extrn N;N:N=1;goto N;}"}
	check("names", 1, func(y func(string) bool) {
		for _, r := range roles {
			for _, a := range nm {
				if !y(strings.ReplaceAll(r, "N", a)) {
					return
				}
				for _, r2 := range roles {
					s := strings.NewReplacer("f(", "f2(", "g(", "g2(").Replace(r2)
					if !y(strings.ReplaceAll(r+s, "N", a)) {
						return
					}
				}
				for _, b := range nm {
					if r == "f(N){return(N);}" && (!y("f("+a+","+b+"){return("+a+"+"+b+");}") || !y("f("+a+"){auto "+b+";"+b+":"+a+":return("+a+"+"+b+");}")) {
						return
					}
				}
			}
		}
	})
	check("names like those the compiler makes up", 1, func(y func(string) bool) {
		c.namesFamily(pool, append(append([]string{}, nameLabels...), nameVars...), func(_, src string) bool { return y(strings.ReplaceAll(src, "#", "")) })
	})
	// --- mutations of the corpus
	names, srcs := c.corpus()
	for i, s := range p07good {
		names = append(names, fmt.Sprint("good", i))
		srcs = append(srcs, s)
	}
	for i, s := range srcs {
		if len(s) > 3000 && !c.Thorough() {
			continue
		}
		toks, err := tokenize(s)
		if err != nil {
			continue
		}
		check("mutations of "+names[i], Pick(c, uint64(8), 2), func(y func(string) bool) {
			mk := func(parts ...[]string) bool {
				var t []string
				for _, p := range parts {
					t = append(t, p...)
				}
				return y(strings.Join(t, " "))
			}
			reps := []string{"a", "x", "1", "\"s\"", ";", "(", ")", "{", "}", "=", "+", "++", "*", "&", "-", "!", "return", "goto", "else", ",", "[", "]", "auto", "extrn", "case", ":", "?"}
			for k := range s {
				if !y(s[:k]) {
					return
				}
			}
			for k := range toks {
				if !mk(toks[:k], toks[k+1:]) || !mk(toks[:k+1], toks[k:]) {
					return
				}
				for w := 2; w <= 12 && k+w <= len(toks); w++ {
					if !mk(toks[:k], toks[k+w:]) || !mk(toks[:k+w], toks[k:]) {
						return
					}
				}
				for _, t := range reps {
					if !mk(toks[:k], []string{t}, toks[k+1:]) || !mk(toks[:k], []string{t}, toks[k:]) {
						return
					}
				}
				// any other token of the same program
				for j := range toks {
					if len(toks) < 150 && (!mk(toks[:k], []string{toks[j]}, toks[k+1:]) || !mk(toks[:k], []string{toks[j]}, toks[k:])) {
						return
					}
				}
			}
		})
	}
	// --- sizes of things
	c.Chunk = 2
	check("sizes", 1, func(y func(string) bool) {
		seq := func(pre, unit, post string, n int) string {
			var b strings.Builder
			b.WriteString(pre)
			for i := 0; i < n; i++ {
				b.WriteString(strings.ReplaceAll(unit, "#", fmt.Sprint(i)))
			}
			b.WriteString(post)
			return b.String()
		}
		for _, q := range [][3]string{{"f(a){a=", "(a+", "1"}, {"f(){", "auto x#;", "}"}, {"f(){", "L#:;", "}"}, {"f(a){", "if(a)goto L#;L#:;", "}"}, {"f(a){switch(a){", "case #:a=a+#;", "}}"}, {"f(){", "g(#);", "}"}, {"", "x# #;", ""}, {"", "f#(a)return(a);", ""}, {"f(x", ",a#", "){}"}, {"f(){extrn x", ",y#", ";}"}, {"f(){", "g(\"s#\");", "}"}, {"x[]1", ",#", ";"}, {"x[]1", ",\"#\"", ";"}, {"", "v#[#];", ""}, {"f(){g(1", ",#", ");}"}, {"f(a){return(a", "+#", ");}"}, {"f(a){", "if(a){", "}"}, {"f(a){", "while(a)", ";}"}, {"f(a){", "if(a);else ", ";}"}, {"f(a){", "return(a);", "}"}, {"f(a){", "{auto v#[9];v#[1]=a;}", "}"}} {
			for _, n := range []int{0, 1, 2, 3, 7, 8, 15, 16, 31, 32, 33, 63, 64, 65, 127, 128, 129, 255, 256, 257, 300} {
				s := seq(q[0], q[1], q[2], n)
				if q[1] == "(a+" {
					s += strings.Repeat(")", n) + ";}"
				}
				if q[1] == "if(a){" {
					s += strings.Repeat("}", n)
				}
				if !y(s) {
					return
				}
			}
		}
		for n := 0; n <= 70; n++ {
			for _, f := range []string{"x[%d];", "x[%d]1;", "x[%d]1,2,3;", "f(){auto v[%d];return(v[0]);}", "x[%d]\"a\",\"b\";f(){extrn x;return(x[1]);}"} {
				if !y(fmt.Sprintf(f, n)) {
					return
				}
			}
		}
	})
	c.Chunk = 0
	// very large sizes: parse and verify only
	check("large sizes", 0, func(y func(string) bool) {
		for _, s := range boundaryNumbers() {
			for _, w := range []string{"x[%s];", "x[%s] 1;", "x[%s] \"s\",2;f(){extrn x;return(x[1]);}", "f(){auto v[%s];v[0]=1;}", "f(x){switch(x)case %s:;}", "x %s;", "x -%s;", "f(){return(%s);}"} {
				if !y(strings.ReplaceAll(w, "%s", s)) {
					return
				}
			}
		}
	})
	c.Outcome("accepted texts", accepted.Load())
	c.Outcome("rejected texts", rejected.Load())
	c.Outcome("distinct modules verified", distinct.Load())
	c.Outcome("modules optimized and translated at all levels", gen.Load())
	if n := lost.Load(); n > 0 {
		c.Outcome("texts without a verdict", n)
	}
}

// p09confirm checks with the real commands that an accepted text gives invalid code.
func (c *Ctx) p09confirm(src string, st byte, msg string) {
	d := c.Temp()
	defer os.RemoveAll(d)
	mustWrite(filepath.Join(d, "a.b"), []byte(src))
	for k := 0; k < 5; k++ {
		r := run(Cmd{Dir: d, Env: c.env(), Args: limited(60, c.Blang, "--emit-llvm", "-o", "a.ll", "a.b"), Timeout: 120 * time.Second})
		if r.Code != 0 {
			return
		}
		bad := false
		if r := run(Cmd{Dir: d, Args: []string{"llvm-as", "-o", "/dev/null", "a.ll"}}); r.Code != 0 {
			bad, msg = true, string(r.Err)
		}
		if !bad && st != 'P' && st != 'V' {
			for l := 0; l <= 3 && !bad; l++ {
				if r := run(Cmd{Dir: d, Env: c.env(), Args: limited(60, c.Blang, "-c", "-O", strconv.Itoa(l), "-o", "a.o", "a.b"), Timeout: 120 * time.Second}); r.Code != 0 {
					bad, msg = true, string(r.Err)
				}
			}
		}
		if !bad {
			return
		}
	}
	c.Violation("invalid "+keyOf([]byte(src)), fmt.Sprintf("the compiler accepts the program but its code is not valid:\n%s\n%s", clip([]byte(src)), clip([]byte(msg))), map[string]string{"prog.b": src})
}

var p09stm = []string{";", "return;", "return(x);", "goto L;", "goto M;", "L:;", "M:x=1;", "L:M:;", "if(x)x=1;", "if(x)return;", "if(x)goto L;", "if(x)return;else return(1);", "if(x)goto L;else goto M;", "if(x){L:;}", "while(x)x=0;", "while(x)return;", "while(x)goto M;", "while(1);", "while(x){M:x=1;}",
	"switch(x){case 1:x=1;case 2:return;}", "switch(x)case 3:;", "switch(x){}", "switch(x){x=2;}", "switch(x){L:case 1:;}", "switch(x){case 1:return;case 2:goto L;}", "{return;}", "{}", "auto y;", "auto w[3];", "extrn e;", "x=y;", "x=w[1];", "x=x?y:1;", "x=x?f():g();", "f(x);", "*x=1;", "x=&x;", "x=\"s\";", "e=x;", "e();", "auto e;", "extrn g;", "x=f;", "x(1);"}

var p09items = []string{"A;", "A 1;", "A 1,2;", "A 1,\"s\";", "A[];", "A[2];", "A[2]1,\"s\",3;", "A[200];", "A[200]1;", "A(){}", "A(B){}", "A(A){}", "A(x,B){return(B);}", "A(x){return(x);}", "A(){extrn A;A=1;}", "A(){extrn B;B=1;}", "A(){auto A;A=1;}", "A(){auto B;B=1;B();}", "A(){return(B);}", "A(){return(A);}", "A(){B();}", "A(){B(1,2);}", "A(){A();}", "A(x){A(x,1);}", "A(){extrn B;B();}", "A(){extrn B;B(1);return(B);}", "A(B){B(1);}", "A(){auto v[2];v[1]=B;v[1](1);}", "A(){extrn B;return(&B);}", "A(){extrn B;return(B[1]);}", "A(){extrn B;B[1]=2;}", "A(){extrn B;B++;}", "A(){B:goto B;}", "A(B){B:goto B;}", "A(){auto B;B:goto B;}", "A(){extrn B;B:goto B;}", "A(){A:goto A;}", "A(){return(A==B);}", "A(){return(!B);}", "A(){return(B[1]);}", "A(){return(*B);}", "A(){return(-A);}", "A(){x:B(x);}", "A(){if(B)return(A);}", "A(){extrn A,B;return(A+B);}", "A(){extrn B;extrn B;B=1;}", "A(){auto B;extrn B;B=1;}", "A(){extrn B;auto B;B=1;}", "A(B,B){}", "A(x){extrn x;x=1;}", "A(x){auto x;x=1;}", "A(x){A=x;}", "A(x){B=x;}", "A(){\"s\";\"s\";\"t\";}", "A(){B(\"s\",A);}"}

// p09defs: the definitions over two names, both ways round
func p09defs() (defs []string) {
	for _, it := range p09items {
		defs = append(defs, strings.NewReplacer("A", "a", "B", "b").Replace(it), strings.NewReplacer("A", "b", "B", "a").Replace(it))
	}
	return
}
