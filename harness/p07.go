package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
)

func init() { checks["P07"] = checkP07 }

// corpus returns the programs kept with the checks.
func (c *Ctx) corpus() (names []string, srcs []string) {
	l, _ := filepath.Glob(filepath.Join(c.Root, "corpus", "*.b"))
	sort.Strings(l)
	for _, f := range l {
		b, err := os.ReadFile(f)
		if err != nil {
			fatal("%v", err)
		}
		names = append(names, filepath.Base(f))
		srcs = append(srcs, string(b))
	}
	if len(names) == 0 {
		fatal("no corpus")
	}
	return
}

// small programs and broken programs used in addition to the corpus
var p07good = []string{
	"main(){}", "main();", "x;", "x[];", "x[1];", "f(a)return(a);", "f(a,b,c){return(a-b- -c);}", "x-1;y'a',\"b\";",
	"f(){a:b:c:goto a;}", "f(){if(1)if(2);else;}", "f(){auto a;a=a==a;}", "f(){auto a;a=-a;a=- -a;a=*&a;}",
	"f(x){while(x)switch(x){case 1:case'b':return;}}", "f(){extrn a,b;a=b=a;}", "f(x){x=x?(x?1:2):x?3:4;}", "f(){g(h(),i(1),\"s\");}",
	"f(){auto v[3];v[v[0]]=v[1]++;--v[2];}", "f(e,els,elsex){if(e)e=1;else els=2;if(e)elsex=1;else{els=2;}}",
	"f(autox,extrnx,returnx,gotox,casex){autox=1;extrnx=1;returnx=1;gotox=1;casex=1;}", "f(a_b,_c){if(a_b)_c=1;else _c=2;}",
	"f(w){while(w)w=0;while(!w)w=1;}", "f(w){switch(w)case 0:w=1;}", "f(){return;}f2(){return('a');}",
}
var p07bad = []string{
	"main(", "main(){", "main(){x=1;}", "main(){return 1;}", "x[1", "x 1,;", "f(a b){}", "f(){auto;}", "f(){auto a b;}", "f(){goto;}", "f(){goto x;}", "f(){if 1;}", "f(){1+;}",
	"f(){case 1:;}", "f(){auto a,a;}", "f(){1=2;}", "f(){a b;}", "f(){ else; }", "1", "f(){}}", "f(){g(1;}", "f(){auto v[;}", "f(){'ab;}", "f(){\"ab;}", "f(){auto a;a++ ++;}", "f(){auto a;a= =1;}",
	"f(){auto a;a< <1;}", "f(){auto a;a! =1;}", "f(){auto a;a=a = =1;}", "f(){auto a;a + + ;}",
}

type p07item struct {
	src   string
	group *p07group
	desc  string
}

type p07group struct {
	key  string
	base Verdict
	text string
}

func checkP07(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "evaluations: source texts; every separator (none, blank, tab, newline, carriage return, comments of many shapes) at every token boundary of every program of a corpus, pairs of separators at neighbouring boundaries, every token sequence up to the stated length under every uniform layout, and every comment content up to the stated length; two texts with the same tokens must get the same verdict and the same intermediate code; distinct_nontrivial: different texts that are accepted, so that their code is compared"
	c.Assumptions = []string{"a text written with the fewest separators is the reference for its token sequence; the in-process verdict is confirmed with the real command before a violation is reported"}
	pool := c.NewPool()
	defer pool.Close()
	same := func(g *p07group, v Verdict) bool {
		if v.St != g.base.St {
			return false
		}
		return v.St != 'A' || v.Out == g.base.Out
	}
	// confirm with the real command, five times
	confirmed := func(a, b string) bool {
		for k := 0; k < 5; k++ {
			x, y := c.realRun([]byte(a)), c.realRun([]byte(b))
			if x.Code == y.Code && (x.Code != 0 || string(x.Out) == string(y.Out)) {
				return false
			}
		}
		return true
	}
	runItems := func(gen func(yield func(p07item) bool)) {
		Stream(c, pool, gen, func(t p07item) Req { return Req{Mode: 'C', FailAt: -1, Files: [][]byte{[]byte(t.src)}} }, func(t p07item, v Verdict) {
			c.Evals.Add(1)
			if v.St == 'A' && t.src != t.group.text {
				c.NoteDistinct([]byte(t.src))
				if len(t.src) < 400 {
					c.Sample(map[string]any{"text": t.src, "same code as": t.group.text})
				}
			}
			if same(t.group, v) {
				c.Outcome("same as reference: "+map[byte]string{'A': "accepted", 'R': "rejected"}[v.St], 1)
				return
			}
			if !confirmed(t.group.text, t.src) {
				return
			}
			c.Violation(t.group.key+": "+t.desc, fmt.Sprintf("two texts with the same tokens are treated differently (%c and %c)\n--- one:\n%s\n--- other:\n%s\n--- messages: %s / %s", t.group.base.St, v.St, clip([]byte(t.group.text)), clip([]byte(t.src)), clip([]byte(pick(t.group.base))), clip([]byte(pick(v)))),
				map[string]string{"one.b": t.group.text, "other.b": t.src})
		})
	}
	group := func(key, text string) *p07group {
		g := &p07group{key: key, text: text}
		g.base = pool.One(Req{Mode: 'C', FailAt: -1, Files: [][]byte{[]byte(text)}})
		return g
	}
	names, srcs := c.corpus()
	for i, s := range p07good {
		names = append(names, fmt.Sprintf("good %d", i))
		srcs = append(srcs, s)
	}
	ngood := len(srcs)
	for i, s := range p07bad {
		names = append(names, fmt.Sprintf("bad %d", i))
		srcs = append(srcs, s)
	}
	seps := []string{"", " ", "\t", "\n", "\r\n", "  ", "/**/", "/* x */", "/*\n*/", "/***/", "/*/*/", "/*\"*/", "/*'*/", " /**/ ", "/**//**/", "\n\t/* a; } */\n", "/*}*/\t", "/****/", "/*//*/", "\n\n\n", "/*\xc3\xa9*/", "/* if else case */"}
	small := []string{" ", "\n", "/**/", "\t/*;*/"}
	c.Extra["bounds"] = map[string]any{"separators": len(seps), "corpus programs": len(srcs), "token sequence length": Pick(c, "4 (statements), 3 (expressions, definitions)", "5 (statements), 4 (expressions, definitions)"), "comment content length": Pick(c, 5, 7)}
	for pi, src := range srcs {
		if c.Stop() {
			return
		}
		toks, err := tokenize(src)
		if err != nil { // an unterminated literal: one token to the end
			continue
		}
		if len(toks) > 700 && !c.Thorough() {
			// long programs: only the first part of the separators
			continue
		}
		// reference text
		tight := strings.TrimSuffix(Join(toks, Tight), "\n")
		g := group(names[pi], tight)
		if pi < ngood && g.base.St != 'A' {
			if r := c.realRun([]byte(tight)); r.Code != 0 {
				c.Violation(names[pi]+": rejected", fmt.Sprintf("a valid program is rejected: %s\n%s", g.base.Out, clip([]byte(tight))), map[string]string{"prog.b": tight})
			}
			continue
		}
		runItems(func(yield func(p07item) bool) {
			render := func(at map[int]string, def string) string {
				var b strings.Builder
				for i := 0; i <= len(toks); i++ {
					s, ok := at[i]
					if !ok {
						s = def
						if def == "" && i > 0 && i < len(toks) && needSpace(toks[i-1], toks[i]) {
							s = " "
						}
					}
					b.WriteString(s)
					if i < len(toks) {
						b.WriteString(toks[i])
					}
				}
				return b.String()
			}
			for _, s := range seps {
				if s == "" {
					continue
				}
				if !yield(p07item{render(nil, s), g, fmt.Sprintf("%q everywhere", s)}) {
					return
				}
			}
			for i := 0; i <= len(toks); i++ {
				for _, s := range seps {
					if s == "" && (i == 0 || i == len(toks) || needSpace(toks[i-1], toks[i])) {
						continue
					}
					// a '/' or '*' next to a comment would form another comment: keep them apart
					if i > 0 && strings.HasSuffix(toks[i-1], "/") && strings.HasPrefix(s, "/") || i < len(toks) && false {
						continue
					}
					if !yield(p07item{render(map[int]string{i: s}, ""), g, fmt.Sprintf("%q at boundary %d", s, i)}) {
						return
					}
					if s == "" {
						if !yield(p07item{render(map[int]string{i: s}, " "), g, fmt.Sprintf("%q at boundary %d, blanks elsewhere", s, i)}) {
							return
						}
					}
				}
				if i+1 <= len(toks) && (len(toks) < 200 || c.Thorough()) {
					for _, a := range small {
						for _, b := range small {
							if i > 0 && strings.HasSuffix(toks[i-1], "/") && a[0] == '/' || i < len(toks) && strings.HasSuffix(toks[i], "/") && b[0] == '/' {
								continue
							}
							if !yield(p07item{render(map[int]string{i: a, i + 1: b}, ""), g, fmt.Sprintf("%q %q at boundary %d", a, b, i)}) {
								return
							}
						}
					}
				}
			}
		})
	}
	c.Phase("boundaries")
	// --- unclosed comments at every boundary
	type reject struct{ src, desc string }
	Stream(c, pool, func(yield func(reject) bool) {
		for pi, src := range srcs[:ngood] {
			toks, _ := tokenize(src)
			if len(toks) > 700 {
				toks = toks[:700]
			}
			for i := 0; i <= len(toks); i++ {
				pre := Join(toks[:i], Loose)
				post := Join(toks[i:], Loose)
				if strings.Contains(post, "*/") {
					continue
				}
				for _, o := range []string{"/*", "/*/", "/**", "/* /*", "/* \" ", "/***"} {
					if strings.HasSuffix(o, "*") && strings.HasPrefix(post, "/") || strings.HasSuffix(o, "/") && false {
						continue
					}
					if strings.Contains((o + post)[2:], "*/") {
						continue
					}
					if !yield(reject{pre + " " + o + post, fmt.Sprintf("%s: unclosed %q before token %d", names[pi], o, i)}) {
						return
					}
				}
				if i == len(toks) {
					for _, o := range []string{"/*", "/**", "/*/", "/* *", "/*\n"} {
						if !yield(reject{pre + o, fmt.Sprintf("%s: unclosed %q at the end", names[pi], o)}) {
							return
						}
					}
				}
			}
		}
	}, func(t reject) Req { return Req{Mode: 'V', FailAt: -1, Files: [][]byte{[]byte(t.src)}} }, func(t reject, v Verdict) {
		c.Evals.Add(1)
		if v.St == 'R' && v.Out != "" {
			c.Outcome("unclosed comment rejected", 1)
			return
		}
		for k := 0; k < 5; k++ {
			if r := c.realRun([]byte(t.src)); r.Code == 1 && len(r.Err) > 0 {
				return
			}
		}
		c.Violation(t.desc, fmt.Sprintf("an unclosed comment is not rejected with a diagnostic (%c)\n%s", v.St, clip([]byte(t.src))), map[string]string{"prog.b": t.src})
	})
	c.Phase("unclosed")
	// --- characters kept apart by white space do not form one token
	c.opStrings(pool, "apart:", func(emit func(string) bool) {
		ops := []string{"-", "--", "+", "++", "&", "*", "!", "=", "==", "<", ">"}
		seps := []string{"", " ", "/**/", "\n"}
		var rec func(s string, n int, post string) bool
		rec = func(s string, n int, post string) bool {
			for _, sep := range seps {
				if s == "" && sep != "" {
					continue
				}
				if n == 0 {
					if !emit(s + sep + post) {
						return false
					}
					continue
				}
				for _, o := range ops {
					if !rec(s+sep+o, n-1, post) {
						return false
					}
				}
			}
			return true
		}
		for n := 1; n <= Pick(c, 2, 3); n++ {
			if !rec("x", n, "y") || !rec("", n+1, "y") || !rec("x", n, "") {
				return
			}
		}
	})
	c.Phase("kept apart")
	// --- every content of a comment
	var places = []struct{ pre, post string }{{"main(){", "return(1);}"}, {"main(){return(1", ");}"}, {"", "main(){return(1);}"}, {"main(){return(1);}", ""}, {"main(){if(1)return(1);", "else return(2);}"}, {"x", "[3]1,2;"}, {"f(a", ",b){}"}, {"f(){auto a;a=a", "-a;}"}, {"f(){g(", ");}"}, {"f(){return", ";}"}, {"f(){L", ":goto L;}"}, {"f(){extrn a", ";}"}}
	alpha := []byte("*/\"'\na;")
	for i, pl := range places {
		g := group(fmt.Sprintf("comment in place %d", i), pl.pre+" "+pl.post)
		if g.base.St != 'A' {
			continue // P08 and others judge this
		}
		maxLen := Pick(c, 5, 7)
		if i > 1 {
			maxLen = Pick(c, 3, 5)
		}
		runItems(func(yield func(p07item) bool) {
			var rec func(s []byte) bool
			rec = func(s []byte) bool {
				t := string(s) + "*/"
				if strings.Index(t, "*/") == len(s) {
					if !yield(p07item{pl.pre + "/*" + t + pl.post, g, fmt.Sprintf("comment %q", s)}) {
						return false
					}
				}
				if len(s) == maxLen || strings.Contains(string(s), "*/") {
					return true
				}
				for _, a := range alpha {
					if !rec(append(s[:len(s):len(s)], a)) {
						return false
					}
				}
				return true
			}
			if !rec(nil) {
				return
			}
			for b := 0; b < 256; b++ {
				for _, pat := range []string{"%", "*%", "%*", "**%", "%/", "/%", "a%b"} {
					s := strings.Replace(pat, "%", string([]byte{byte(b)}), 1)
					if strings.Index(s+"*/", "*/") != len(s) {
						continue
					}
					if !yield(p07item{pl.pre + "/*" + s + "*/" + pl.post, g, fmt.Sprintf("comment %q", s)}) {
						return
					}
				}
			}
			for _, n := range []int{100, 4090, 4091, 4092, 4093, 4094, 4095, 4096, 4097, 65535, 65536, 1 << 20} {
				for _, u := range []string{"x", "*", "/", "\n", "* /"} {
					if !yield(p07item{pl.pre + "/*" + strings.Repeat(u, n) + " */" + pl.post, g, fmt.Sprintf("comment of %d %q", n, u)}) {
						return
					}
					if u == " " || u == "\n" {
						if !yield(p07item{pl.pre + strings.Repeat(u, n) + pl.post, g, fmt.Sprintf("%d of %q", n, u)}) {
							return
						}
					}
				}
			}
			// many comments
			for n := 1; n <= 64; n++ {
				if !yield(p07item{pl.pre + strings.Repeat("/* x *//**/\n", n) + pl.post, g, fmt.Sprintf("%d comments", n)}) {
					return
				}
			}
		})
	}
	c.Phase("contents")
	// --- every token sequence under every uniform layout
	p07sequences(c, pool, confirmed)
}

func pick(v Verdict) string {
	if v.St == 'A' {
		return ""
	}
	return v.Out
}

func p07sequences(c *Ctx, pool *Pool, confirmed func(a, b string) bool) {
	tokens := []string{"a", "b", "if", "else", "while", "switch", "case", "goto", "return", "auto", "extrn", "1", "'c'", "\"s\"", "(", ")", "[", "]", "{", "}", ",", ";", ":", "?", "=", "==", "=+", "+", "++", "-", "--", "*", "&", "!", "<", "<<", "/", "x"}
	frames := []struct{ name, pre, post string }{
		{"statement", "f(a,b){auto x;", "}"},
		{"definition", "", ""},
		{"expression", "f(a,b){auto x;x=", ";}"},
	}
	maxLen := Pick(c, 3, 4)
	Stream2(c, pool, func(yield func([]string) bool) {
		for _, fr := range frames {
			var rec func(t []string) bool
			rec = func(t []string) bool {
				if len(t) > 0 {
					var group []string
					tight := true
					for i := 1; i < len(t); i++ {
						if needSpace(t[i-1], t[i]) {
							tight = false
						}
					}
					build := func(sep string) string {
						return fr.pre + sep + strings.Join(t, sep) + sep + fr.post
					}
					// reference: a blank between any two tokens
					group = append(group, build(" "), build("\n"))
					slash := false
					for _, x := range t {
						if x == "/" {
							slash = true
						}
					}
					if !slash {
						group = append(group, build("/**/"))
					} else {
						group = append(group, build("\t"))
					}
					if tight && !(fr.post != "" && needSpace(t[len(t)-1], fr.post[:1])) {
						s := fr.pre
						if s != "" && needSpace(s[len(s)-1:], t[0]) {
							s += " "
						}
						group = append(group, s+strings.Join(t, "")+fr.post)
					}
					if !yield(group) {
						return false
					}
				}
				if len(t) == maxLen && fr.name != "statement" || len(t) > maxLen {
					return true
				}
				for _, x := range tokens {
					if !rec(append(t[:len(t):len(t)], x)) {
						return false
					}
				}
				return true
			}
			if !rec(nil) {
				return
			}
		}
	}, func(group []string, vs []Verdict) {
		c.Evals.Add(int64(len(group)))
		c.Outcome("token sequences "+map[byte]string{'A': "accepted", 'R': "rejected"}[vs[0].St], 1)
		for i := 1; i < len(vs); i++ {
			if vs[i].St == 'A' {
				c.NoteDistinct([]byte(group[i]))
			}
			if vs[i].St != vs[0].St || vs[0].St == 'A' && vs[i].Out != vs[0].Out {
				if confirmed(group[0], group[i]) {
					c.Violation(fmt.Sprintf("sequence %q", group[0]), fmt.Sprintf("two texts with the same tokens are treated differently (%c and %c)\n--- one:\n%s\n--- other:\n%s\n%s / %s", vs[0].St, vs[i].St, group[0], group[i], pick(vs[0]), pick(vs[i])), map[string]string{"one.b": group[0], "other.b": group[i]})
				}
			}
		}
	})
}

// Stream2 compiles groups of texts and judges each group at once.
func Stream2(c *Ctx, p *Pool, gen func(yield func([]string) bool), each func([]string, []Verdict)) {
	ch := make(chan [][]string, 8)
	done := make(chan bool)
	for k := 0; k < 8; k++ {
		go func() {
			w := p.get()
			defer func() { p.put(w); done <- true }()
			for gs := range ch {
				if c.Stop() {
					continue
				}
				var qs []Req
				for _, g := range gs {
					for _, s := range g {
						qs = append(qs, Req{Mode: 'C', FailAt: -1, Files: [][]byte{[]byte(s)}})
					}
				}
				vs := w.Batch(qs)
				for _, g := range gs {
					each(g, vs[:len(g)])
					vs = vs[len(g):]
				}
			}
		}()
	}
	var buf [][]string
	gen(func(g []string) bool {
		if c.Stop() {
			return false
		}
		buf = append(buf, g)
		if len(buf) == 32 {
			ch <- buf
			buf = nil
		}
		return true
	})
	if len(buf) > 0 {
		ch <- buf
	}
	close(ch)
	for k := 0; k < 8; k++ {
		<-done
	}
}
