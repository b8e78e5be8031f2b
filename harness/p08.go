package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strings"
	"sync/atomic"
	"time"
)

func init() { checks["P08"] = checkP08 }

// badEnd tells why the way a compilation ended is not allowed ("" when it is).
func badEnd(r Result) string {
	msg := string(r.Err)
	switch {
	case strings.Contains(msg, "goroutine ") && strings.Contains(msg, "panic:"), strings.Contains(msg, "runtime error:"), strings.Contains(msg, "fatal error:"):
		return "internal crash trace"
	case r.Code == 0:
		return ""
	case r.Code == -3:
		return "does not end"
	case r.Code == -1:
		return "killed: " + r.Signal
	case r.Code > 128:
		return fmt.Sprintf("killed or out of limits (status %d)", r.Code)
	case len(bytes.TrimSpace(r.Err)) == 0:
		return fmt.Sprintf("status %d without a message", r.Code)
	}
	return ""
}

type p08item struct {
	src  []byte
	part string
	real bool // also with the real command
}

func checkP08(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "evaluations: source texts; all token sequences and all byte sequences up to the stated lengths in several contexts, every truncation, and every single-byte and single-token deletion, duplication, swap and replacement of a corpus, nesting of every construct and lengths of every kind of token over a sweep of sizes; each must end with success or a diagnostic, with the same verdict each time; distinct_nontrivial: different texts"
	c.Assumptions = []string{"a process limit of 12 GB address space and 20 s per text bounds 'terminates' and 'does not exhaust memory'", "the parser runs in process; deaths, endless reading and time-outs are confirmed with the real command five times (time-outs twice)"}
	pool := c.NewPool()
	defer pool.Close()
	var accepted, rejected, reals atomic.Int64
	check := func(part string, gen func(yield func(p08item) bool), twice bool) {
		if c.Stop() {
			return
		}
		Stream(c, pool, func(y func(p08item) bool) {
			gen(func(t p08item) bool {
				t.part = part
				if !y(t) {
					return false
				}
				if twice {
					return y(t)
				}
				return true
			})
		}, func(t p08item) Req { return Req{Mode: 'C', FailAt: -1, Files: [][]byte{t.src}} }, func(t p08item, v Verdict) {
			c.Evals.Add(1)
			c.NoteDistinct(t.src)
			if len(t.src) < 300 && len(t.src) > 12 {
				c.Sample(map[string]any{"text": string(t.src), "verdict": string(v.St), "message": pick(v)})
			}
			switch {
			case v.St == 'A':
				accepted.Add(1)
			case v.St == 'R' && v.Out != "":
				rejected.Add(1)
			default:
				c.p08confirm(t.src, fmt.Sprintf("in process: %c", v.St))
				return
			}
			if t.real {
				reals.Add(1)
				r := c.realRun(t.src)
				if badEnd(r) != "" {
					c.p08confirm(t.src, badEnd(r))
				} else if (r.Code == 0) != (v.St == 'A') {
					// once more: the verdict must be the same each time
					c.p08verdicts(t.src)
				}
			}
		})
		c.Phase(part)
	}
	// ---- token sequences
	tokens := []string{"a", "b", "main", "if", "else", "while", "switch", "case", "goto", "return", "auto", "extrn", "1", "0", "'c'", "\"s\"", "(", ")", "[", "]", "{", "}", ",", ";", ":", "?", "=", "=+", "==", "===", "+", "++", "-", "--", "*", "&", "!", "<", "=<", "/", "%", "|"}
	frames := [][2]string{{"", ""}, {"f(a){auto b;", "}"}, {"f(a){auto b;", ""}}
	n := 4
	c.Extra["bounds"] = map[string]any{"tokens": len(tokens), "token sequence length": fmt.Sprintf("%d (%d at top level and in a closed body)", n, n), "bytes": "all sequences of 2 in 16 contexts, of 3 over 34 bytes", "nesting": "up to 200000"}
	for fi, fr := range frames {
		n := n
		if fi == 2 && !c.Thorough() {
			n = 3
		}
		check(fmt.Sprintf("token sequences %d", fi), func(y func(p08item) bool) {
			var rec func(s string, k int) bool
			rec = func(s string, k int) bool {
				if !y(p08item{src: []byte(fr[0] + s + fr[1])}) {
					return false
				}
				if k == n {
					return true
				}
				for _, t := range tokens {
					if !rec(s+t+" ", k+1) {
						return false
					}
				}
				return true
			}
			rec("", 0)
		}, false)
	}
	// ---- sequences of definitions over two names, and of statements
	defs := p09defs()
	check("definitions", func(y func(p08item) bool) {
		for _, a := range defs {
			for _, b := range defs {
				if !y(p08item{src: []byte(a + b)}) {
					return
				}
				if !c.Thorough() && (len(a)+len(b))%6 != 0 {
					continue
				}
				for _, d := range defs {
					if !y(p08item{src: []byte(a + b + d)}) {
						return
					}
				}
			}
		}
	}, false)
	check("statements", func(y func(p08item) bool) {
		for _, a := range p09stm {
			for _, b := range p09stm {
				for _, d := range p09stm {
					if !y(p08item{src: []byte("e[2];g(){}f(x){" + a + b + d + "}")}) {
						return
					}
				}
			}
		}
	}, false)
	// unclosed ends: token sequences glued to the end of the file
	check("token sequences at the end of the file", func(y func(p08item) bool) {
		for _, pre := range []string{"", "f(", "f(a){", "f(){auto v[", "x[", "x ", "f(){return(", "f(){switch(1){case ", "f(){if(1)", "f(){while(", "f(){a[", "f(){a(", "f(){a?", "f(){a=", "f(){goto ", "f(){extrn "} {
			for _, t := range tokens {
				for _, u := range append([]string{""}, tokens...) {
					if !y(p08item{src: []byte(pre + t + u), real: u == ""}) {
						return
					}
				}
			}
		}
	}, true)
	// ---- byte sequences
	ctxs := [][2]string{{"", ""}, {"m", "(){}"}, {"f(", "){}"}, {"f(){", "}"}, {"f(){a=", ";}"}, {"f(){return(", ");}"}, {"f(){g(\"", "\");}"}, {"f(){g('", "');}"}, {"x[", "];"}, {"x ", ";"}, {"x[2] 1,", ";"}, {"f(){auto ", ";}"}, {"f(){switch(1){case ", ":;}}"}, {"f(){/*", "*/}"}, {"f(){if(1)", "else;}"}, {"f(){L", ":goto L;}"}}
	check("two bytes", func(y func(p08item) bool) {
		for _, cx := range ctxs {
			for a := 0; a < 256; a++ {
				if !y(p08item{src: []byte(cx[0] + string([]byte{byte(a)}) + cx[1]), real: true}) {
					return
				}
				for b := 0; b < 256; b++ {
					if !y(p08item{src: []byte(cx[0] + string([]byte{byte(a), byte(b)}) + cx[1])}) {
						return
					}
				}
			}
		}
	}, false)
	some := []byte{0, 1, 9, 10, 13, ' ', '!', '"', '#', '%', '&', '\'', '(', ')', '*', '+', ',', '-', '/', '0', '9', ':', ';', '<', '=', '?', '[', ']', 'a', '_', '{', '|', '}', 0x80, 0xff, 0xc3}
	if !c.Thorough() {
		some = []byte{0, 10, ' ', '!', '"', '%', '\'', '(', ')', '*', '+', ',', '-', '/', '0', ':', ';', '<', '=', '?', '[', ']', 'a', '{', '}', 0xff}
	}
	check("three bytes", func(y func(p08item) bool) {
		for _, cx := range ctxs {
			for _, a := range some {
				for _, b := range some {
					for _, d := range some {
						if !y(p08item{src: []byte(cx[0] + string([]byte{a, b, d}) + cx[1])}) {
							return
						}
					}
				}
			}
		}
	}, false)
	// ---- mutations of the corpus
	names, srcs := c.corpus()
	for i, s := range p07good {
		names = append(names, fmt.Sprint("good", i))
		srcs = append(srcs, s)
	}
	for i, s := range p07bad {
		names = append(names, fmt.Sprint("bad", i))
		srcs = append(srcs, s)
	}
	reps := []byte{0, ' ', '\n', '"', '\'', '(', ')', '*', '/', '0', ';', ':', ',', '=', '[', ']', 'a', '{', '}', 0xff, '-', '+', '?', '&'}
	for i := range srcs {
		s := srcs[i]
		big := len(s) > 3000
		check("mutations of "+names[i], func(y func(p08item) bool) {
			for k := 0; k <= len(s); k++ {
				if !y(p08item{src: []byte(s[:k]), real: len(s) < 2000}) || !y(p08item{src: []byte(s[k:])}) {
					return
				}
				if k == len(s) || big && !c.Thorough() && k%8 != 0 {
					continue
				}
				if !y(p08item{src: []byte(s[:k] + s[k+1:])}) || !y(p08item{src: []byte(s[:k] + s[k:k+1] + s[k:])}) {
					return
				}
				if k+1 < len(s) && !y(p08item{src: []byte(s[:k] + s[k+1:k+2] + s[k:k+1] + s[k+2:])}) {
					return
				}
				if big && !c.Thorough() {
					continue
				}
				for _, b := range reps {
					if !y(p08item{src: []byte(s[:k] + string([]byte{b}) + s[k+1:])}) || !y(p08item{src: []byte(s[:k] + string([]byte{b}) + s[k:])}) {
						return
					}
				}
			}
			toks, err := tokenize(s)
			if err != nil || big && !c.Thorough() {
				return
			}
			mk := func(parts ...[]string) bool {
				var t []string
				for _, p := range parts {
					t = append(t, p...)
				}
				return y(p08item{src: []byte(strings.Join(t, " "))})
			}
			for k := range toks {
				if !mk(toks[:k], toks[k+1:]) || !mk(toks[:k+1], toks[k:]) {
					return
				}
				for _, t := range tokens {
					if !mk(toks[:k], []string{t}, toks[k+1:]) || !mk(toks[:k], []string{t}, toks[k:]) {
						return
					}
				}
				for w := 2; w < 6 && k+w <= len(toks); w++ {
					if !mk(toks[:k], toks[k+w:]) {
						return
					}
				}
			}
		}, len(s) < 300)
	}
	// ---- nesting and lengths
	sizes := []int{1, 2, 3, 5, 10, 50, 100, 500, 1000, 5000, 9999, 10000, 19990, 19999, 20000, 20001, 20010, 50000, 200000}
	rep := func(pre, open, mid, clo, post string) []func(int) string {
		var out []func(int) string
		out = append(out, func(n int) string {
			return pre + strings.Repeat(open, n) + mid + strings.Repeat(clo, n) + post
		}, func(n int) string { return pre + strings.Repeat(open, n) }, func(n int) string { return pre + strings.Repeat(open, n) + mid })
		return out
	}
	var nests []func(int) string
	f := "f(a,b){auto v[9],x;x="
	for _, q := range [][5]string{{f, "(", "a", ")", ";}"}, {f, "-", "a", "", ";}"}, {f, "!", "a", "", ";}"}, {f, "*", "a", "", ";}"}, {f, "*&", "a", "", ";}"}, {f, "++", "a", "", ";}"}, {f, "v[", "1", "]", ";}"}, {f, "g(", "a", ")", ";}"}, {f, "g(1,", "a", ")", ";}"},
		{f, "a?b:", "a", "", ";}"}, {f, "a?", "b", ":a", ";}"}, {f, "(a?", "b", ":a)", ";}"}, {f, "x=", "a", "", ";}"}, {f, "x=+", "a", "", ";}"}, {f, "a+", "a", "", ";}"}, {f, "a-(", "a", ")", ";}"}, {f, "a*", "a", "", ";}"}, {f, "a<", "a", "", ";}"}, {f, "", "v", "[0]", ";}"}, {f, "", "a", "()", ";}"}, {f, "", "x", "++", ";}"}, {f, "", "a", "+1", ";}"},
		{"f(a){", "{", ";", "}", "}"}, {"f(a){", "if(a)", ";", "", "}"}, {"f(a){", "if(a);else ", ";", "", "}"}, {"f(a){", "if(a)", ";", "else;", "}"}, {"f(a){", "while(a)", ";", "", "}"}, {"f(a){", "while(a){", ";", "}", "}"}, {"f(a){", "switch(a){case 1:", ";", "}", "}"}, {"f(a){", "switch(a)case 1:", ";", "", "}"}, {"f(a){", ";", "", "", "}"}, {"f(a){", "/*", "", "*/", "}"}, {"f(a){", "/**/", "", "", "}"}, {"f(a){a='", "a", "", "", "';}"}, {"f(a){g(\"", "a", "", "", "\");}"}, {"f(a){g(\"", "*n", "", "", "\");}"}, {"f(a){a=", "9", "", "", ";}"}, {"f(a){a=", "0", "", "", ";}"}, {"f(a){goto ", "l", "", "", ";}"}, {"", "x", ";", "", ""}, {"x", "[", "", "]", ";"}, {"x ", "1,", "1", "", ";"}, {"x ", "-", "1", "", ";"}, {"x[] ", "\"s\",", "1", "", ";"}, {"x[", "1", "];", "", ""}, {"f(", "a,", "b", "", "){}"}, {"f(a){", "auto x;", "", "", "}"}, {"f(a){", "return(a);", "", "", "}"}, {"f(a){", "a:", ";", "", "}"}, {"f(a){g(", "1,", "1", "", ");}"}, {"", "}", "", "", ""}, {"", "(", "", "", ""}, {"", "\x00", "", "", ""}, {"", "\xff", "", "", ""}, {"", " ", "", "", ""}, {"f()", " ", "", "", "{}"}} {
		nests = append(nests, rep(q[0], q[1], q[2], q[3], q[4])...)
	}
	// distinct names
	seq := func(pre, unit, post string) func(int) string {
		return func(n int) string {
			var b strings.Builder
			b.WriteString(pre)
			for i := 0; i < n; i++ {
				b.WriteString(strings.ReplaceAll(unit, "#", fmt.Sprint(i)))
			}
			b.WriteString(post)
			return b.String()
		}
	}
	nests = append(nests, seq("f(){", "auto x#;", "}"), seq("f(){auto x", ",y#", ";}"), seq("f(){", "L#:;", "}"), seq("f(){", "goto L#;", "}"), seq("f(){", "L#:goto L#;", "}"), seq("f(a){switch(a){", "case #:;", "}}"), seq("", "x# #;", ""), seq("", "f#(a)return(a);", ""), seq("f(){", "g#(#);", "}"), seq("f(x", ",a#", "){}"), seq("f(){extrn x", ",y#", ";}"), seq("f(){", "g(\"s#\");", "}"), seq("x[] 1", ",#", ";"), seq("x[] 1", ",\"#\"", ";"), seq("", "v#[#];", ""))
	c.Chunk = 2
	check("nesting", func(y func(p08item) bool) {
		for k, g := range nests {
			for _, n := range sizes {
				if n > Pick(c, 20010, 200000) && k%6 != 0 {
					continue
				}
				if n > 2000 && k >= len(nests)-15 {
					continue
				}
				if !y(p08item{src: []byte(g(n)), real: n <= 3 || n == 1000 || n == 20010}) {
					return
				}
			}
		}
	}, false)
	c.Chunk = 0
	// vector sizes: short inputs must not need much memory
	check("sizes", func(y func(p08item) bool) {
		var ns []string
		ns = append(ns, boundaryNumbers()...)
		for _, s := range ns {
			for _, w := range []string{"x[%s];", "x[%s] 1;", "x[%s] \"s\",2;", "f(){auto v[%s];v[0]=1;}", "f(){switch(1)case %s:;}", "x %s;", "x -%s;", "f(){return(%s);}", "f(){auto v[%s],w[%s];}"} {
				if !y(p08item{src: []byte(strings.ReplaceAll(w, "%s", s)), real: true}) {
					return
				}
			}
		}
	}, false)
	c.Outcome("accepted", accepted.Load())
	c.Outcome("rejected with a message", rejected.Load())
	c.Outcome("also run with the real command", reals.Load())
	// ---- whole command on odd files
	c.p08files()
	// ---- determinism: the same text compiled twice by separate processes
	c.p08determinism(srcs)
	c.Phase("end")
}

func (c *Ctx) p08confirm(src []byte, why string) {
	last := ""
	n := 5
	for k := 0; k < n; k++ {
		r := c.realRun(src)
		b := badEnd(r)
		if b == "" {
			return
		}
		last = b
		if r.Code == -3 || r.Code > 128 {
			n = 2
		}
	}
	c.Violation("end "+keyOf(src), fmt.Sprintf("the compiler ends badly (%s; %s) on\n%s", last, why, clip(src)), map[string]string{"prog.b": string(src)})
}

// keyOf names a source text in the known findings.
func keyOf(src []byte) string {
	if len(src) > 80 {
		return fmt.Sprintf("%q... (%d bytes)", src[:80], len(src))
	}
	return fmt.Sprintf("%q", src)
}

// p08verdicts: the verdict must be the same each time.
func (c *Ctx) p08verdicts(src []byte) {
	codes := map[int]int{}
	for k := 0; k < 40; k++ {
		codes[c.realRun(src).Code]++
	}
	if len(codes) > 1 {
		c.Violation("verdict "+keyOf(src), fmt.Sprintf("the verdict changes from run to run: %v for\n%s", codes, clip(src)), map[string]string{"prog.b": string(src)})
		return
	}
	// in process the verdict differs: judged by another property (histories)
	c.Outcome("verdict in process differs from the command", 1)
}

func (c *Ctx) p08files() {
	d := c.Temp()
	defer os.RemoveAll(d)
	mkdir(filepath.Join(d, "dir.b"))
	mustWrite(filepath.Join(d, "empty.b"), nil)
	mustWrite(filepath.Join(d, "noread.b"), []byte("main(){}"))
	mustWrite(filepath.Join(d, "ok.b"), []byte("main(){}\n"))
	mustWrite(filepath.Join(d, "nul.b"), bytes.Repeat([]byte{0}, 100000))
	for _, in := range []string{"dir.b", "empty.b", "missing.b", "nul.b", "/dev/null", "ok.b", "", ".", "..", ".b", "ok.b/x.b"} {
		for _, mode := range [][]string{{"--emit-llvm"}, {"-c"}, {"-S"}, {"--emit-llvm", "-g"}, {"--emit-llvm", "-O3"}} {
			args := append(append([]string{c.Blang}, mode...), "-o", "out.x", in)
			r := run(Cmd{Dir: d, Env: c.env(), Args: limited(20, args...), Timeout: 60 * time.Second})
			c.Evals.Add(1)
			if b := badEnd(r); b != "" {
				bad := 0
				for k := 0; k < 5; k++ {
					if badEnd(run(Cmd{Dir: d, Env: c.env(), Args: limited(20, args...), Timeout: 60 * time.Second})) != "" {
						bad++
					}
				}
				if bad == 5 {
					c.Violation(fmt.Sprintf("file %s %v", in, mode), fmt.Sprintf("%s for input %q with %v: %s", b, in, mode, clip(r.Err)), nil)
				}
			}
		}
	}
	c.Phase("files")
}

func (c *Ctx) p08determinism(srcs []string) {
	var all []string
	all = append(all, srcs...)
	// programs with many names of each kind, where the order of a table could show
	for k := 1; k <= 12; k++ {
		var b strings.Builder
		for i := 0; i < k; i++ {
			fmt.Fprintf(&b, "x%d %d;v%d[%d] \"s%d\",%d;", i, i, i, i, i, i)
		}
		for i := 0; i < k; i++ {
			fmt.Fprintf(&b, "f%d(a,b){extrn x%d,v%d;auto p,q[2];L%d:p=g%d(a,\"t%d\",f%d);switch(a){case 1:p=1;case 2:p=2;case 3:goto M%d;}M%d:return(p+x%d+v%d[0]);}", i, i, i, i, i, i, (i+1)%k, i, i, i, i)
		}
		all = append(all, b.String())
		// errors: several candidates for the message
		var e strings.Builder
		e.WriteString("f(){")
		for i := 0; i < k; i++ {
			fmt.Fprintf(&e, "goto u%d;", i)
		}
		e.WriteString("}")
		all = append(all, e.String(), strings.ReplaceAll(e.String(), "goto", "undef ="))
	}
	Parallel(len(all), func(i int) {
		if c.Stop() {
			return
		}
		var first Result
		for k := 0; k < Pick(c, 6, 20); k++ {
			r := c.realRun([]byte(all[i]))
			if k == 0 {
				first = r
				c.Evals.Add(1)
				continue
			}
			if r.Code != first.Code || !bytes.Equal(r.Out, first.Out) || !bytes.Equal(r.Err, first.Err) {
				same := true
				for j := 0; j < 40; j++ {
					x := c.realRun([]byte(all[i]))
					if x.Code != first.Code {
						same = false
					}
				}
				if !same {
					c.Violation("verdict "+keyOf([]byte(all[i])), "the verdict changes from run to run", map[string]string{"prog.b": all[i]})
				} else if first.Code == 0 {
					c.Violation("code "+keyOf([]byte(all[i])), "the intermediate code changes from run to run", map[string]string{"prog.b": all[i]})
				}
				return
			}
		}
		c.Outcome("same verdict, code and message each time", 1)
	})
	c.Phase("determinism")
}
