package main

import (
	"fmt"
	"strings"
	"sync/atomic"
)

func init() { checks["P19"] = checkP19 }

// a family of texts: every sequence of up to Max tokens of the alphabet in the frame
type p19fam struct {
	name      string
	pre, post string
	alpha     string
	max, xmax int // quick, thorough
}

// spaced alphabets; the frames declare what the sequences may use
var p19fams = []p19fam{
	{"definitions", "", "", "a b ( ) [ ] { } , ; 1 - \"s\" 'c' = : auto", 4, 5},
	{"definition", "a", "", "( ) [ ] { } , ; 1 - \"s\" 'c' b", 5, 6},
	{"parameters", "f(", "", "a b , ) ( ; { } 1", 6, 7},
	{"parameter list", "f(", "){}", "a b , ; 1 - [ ] (", 6, 7},
	{"vector size", "v[", "];", "1 02 'c' \"s\" a - + ] [ , ;", 5, 6},
	{"vector", "v[2]", ";", "1 - , \"s\" 'c' a [ ] ( ) =", 5, 6},
	{"initial values", "v", ";", "1 - , \"s\" 'c' a [ ] ( ) =", 5, 6},
	{"after a vector", "v[2]1", "", "1 - , ; \"s\" v ( ) { } [", 5, 6},
	{"body", "f(x)", "", "{ } ; x ( ) 1 = return if else", 5, 6},
	{"auto list", "f(p){auto ", "", "a b p , ; [ ] 1 }", 6, 7},
	{"closed auto list", "f(p){auto ", ";}", "a b p , [ ] 1 'c' - = ( )", 5, 6},
	{"auto list in a block", "f(p){auto a;{auto ", ";}}", "a b p , [ ] 1 ;", 6, 7},
	{"auto list after parameters", "f(p,q,r){auto ", ";}", "a p q r , [2] ;", 5, 6},
	{"extrn list", "a;f(p){extrn ", ";}", "a b p , [ ] 1 - = ( ) ;", 5, 6},
	{"open extrn list", "f(p){extrn ", "", "a b p , ; 1 } (", 6, 7},
	{"goto", "f(x){goto ", "}", "L M ; : x 1 ( ) , {", 5, 6},
	{"labels", "f(x){", "}", "L M : ; goto x = { }", 6, 7},
	{"return", "f(x){return", "}", "( ) ; x 1 , + { } =", 5, 6},
	{"return value", "f(x){return(", ");}", "( ) ; x 1 , + - =", 5, 6},
	{"if", "f(x){if", "}", "( ) ; x else { } = 1 if", 5, 6},
	{"if statement", "f(x){if(x)", "}", "x = 1 ; else if(x) { } while(x)", 6, 7},
	{"while", "f(x){while", "}", "( ) ; x { } = 1 while ,", 5, 6},
	{"switch", "f(x){switch", "}", "( ) ; x { } = 1 case : :", 5, 6},
	{"switch body", "f(x){switch(x){", "}}", "case 1 'c' : ; { } x -", 6, 7},
	{"switch statements", "f(x){switch(x)", "}", "case1: case2: ; {; } if(x) while(x) switch(x) x=1; L: else", 5, 6},
	{"case", "f(x){switch(x)case ", ";}", "1 2 'c' \"s\" - : x , case ( )", 5, 6},
	{"keywords", "f(x){", "}", "if else while switch case goto return auto extrn x ; ( ) 1", 4, 5},
	{"statements", "f(x,y){", "}", "{ } ; if(x) else while(x) x=1; L: goto_L; return; switch(x) case1: auto_a; extrn_e;", 5, 6},
	{"operators", "g(){}v[3];f(x,y){extrn v;x=", ";}", "x y 1 g ( ) [ ] + ++ - * & ! ? : = == < , v", 4, 5},
	{"operands", "g(){}f(x,y){", ";}", "x 1 g ( ) [ ] ++ * & - = =+ === , ? :", 5, 6},
	{"binary operators", "f(x){x=", ";}", "x + - * / % & | < > = == != <= >= << >> ! ~ ^ ? :", 4, 5},
	{"assignments", "f(x){x", ";}", "= =+ =- =* =/ =% =& =| =< => =<= =>= =<< =>> =!= === == x 1 ! + & *", 4, 5},
	{"lvalues", "g(){}v[2];w;f(x){extrn v;", "=1;}", "x v w g 1 * & ( ) [ ] ++ -- - ! +", 4, 5},
	{"increments", "g(){}w;f(x){", ";}", "x w g ++ -- * & [1] () ( ) - + 1", 5, 6},
	{"conditions", "f(x,y){return(", ");}", "x y ? : = + ( ) 1 ! <", 5, 6},
	{"calls", "g(){}v[2];f(x){extrn v;", ";}", "g x v u ( ) , 1 [ ] \"s\" +", 5, 6},
	{"arguments", "f(x){f(", ");}", "x , 1 ( ) ; + = [ ] \"s\" f", 5, 6},
	{"subscripts", "f(x){x[", "]=1;}", "x , 1 ( ) ; + = [ ] ++ *", 5, 6},
	{"names", "", "", "a; a(){} b; b(){} c(){extrn_a;a=1;} c(){a();} c(){b;a;} c(a){a=1;} c(){auto_a;a;} c(){a=1;} c(){b:goto_b;} d(){extrn_a,b;} d(){a(b);} d(a,b){b(a);}", 4, 5},
	{"names in a body", "a;b(){}f(p){", "}", "extrn_a; extrn_b; auto_a; auto_b; auto_p; auto_x; a=1; b(); a(); b; a; p=1; x=1; x; x(); f(); f=1; {x=1;} extrn_x; extrn_f; &a; &b; a==1; b==1;", 4, 4},
}

func (f p19fam) tokens() []string {
	var out []string
	for _, t := range strings.Fields(f.alpha) {
		for _, k := range []string{"case1:", "case2:"} {
			t = strings.ReplaceAll(t, k, "case "+k[4:5]+":")
		}
		t = strings.ReplaceAll(t, "goto_", "goto ")
		t = strings.ReplaceAll(t, "auto_", "auto ")
		t = strings.ReplaceAll(t, "extrn_", "extrn ")
		out = append(out, t)
	}
	return out
}

func checkP19(c *Ctx) {
	c.Level = "exploration"
	c.Rule = "evaluations: texts given to the compiler's front end, each with the verdict of a reference recognizer (grammar and declarations) computed independently; all token sequences up to the stated lengths in every syntactic context, and every single-token deletion, duplication, replacement, insertion and exchange of a corpus; distinct_nontrivial: different texts for which the language settles the verdict"
	c.Assumptions = []string{"where the language does not settle the verdict (a keyword or a word starting with a digit as a name, a comma before the closing parenthesis of a call, a number left out of a list of initial values, two definitions of one name, comparison of a name nothing is known about) either verdict is accepted"}
	pool := c.NewPool()
	defer pool.Close()
	var acc, rej, unset, reals atomic.Int64
	type item struct {
		src  string
		want byte
		real bool
	}
	forced := byte(0) // the verdict of every text, where it is known
	check := func(part string, gen func(y func(string) bool), every int) {
		if c.Stop() {
			return
		}
		var n int
		Stream(c, pool, func(y func(*item) bool) {
			gen(func(s string) bool { n++; return y(&item{src: s, real: every > 0 && n%every == 0}) })
		}, func(t *item) Req {
			if t.want = forced; forced == 0 {
				t.want = gramVerdict(t.src)
			}
			return Req{Mode: 'V', FailAt: -1, Files: [][]byte{[]byte(t.src)}}
		}, func(t *item, v Verdict) {
			c.Evals.Add(1)
			switch t.want {
			case 'A':
				acc.Add(1)
			case 'R':
				rej.Add(1)
			default:
				unset.Add(1)
			}
			if t.want != '?' {
				c.NoteDistinct([]byte(t.src))
			}
			if t.real {
				reals.Add(1)
				c.p19confirm(part, t.src, t.want)
			}
			if v.St == t.want && (t.want == 'A' || strings.TrimSpace(v.Out) != "") || t.want == '?' {
				return
			}
			c.p19confirm(part, t.src, t.want)
		})
		c.Phase(part)
	}
	bounds := map[string]any{}
	for _, f := range p19fams {
		f := f
		toks := f.tokens()
		n := Pick(c, f.max, f.xmax)
		bounds[f.name] = fmt.Sprintf("%d tokens, sequences of up to %d", len(toks), n)
		check(f.name, func(y func(string) bool) {
			var rec func(s, sep string, k int) bool
			rec = func(s, sep string, k int) bool {
				if !y(f.pre + s + f.post) {
					return false
				}
				if k == n || sep == "" && k == n-1 {
					return true
				}
				for _, t := range toks {
					if !rec(s+sep+t, sep, k+1) {
						return false
					}
				}
				return true
			}
			// tokens kept apart, then (one token fewer) run together
			_ = rec("", " ", 0) && rec("", "", 0)
		}, 200003)
	}
	c.Extra["bounds"] = bounds
	// ---- edits of the corpus
	reps := strings.Fields("a x f main 1 'c' \"s\" ; : , ( ) [ ] { } = =+ == + ++ - -- * & ! ? < / % | auto extrn if else while switch case goto return")
	names, srcs := c.corpus()
	for i, s := range append(append([]string{}, p07good...), p07bad...) {
		names = append(names, fmt.Sprint("small ", i))
		srcs = append(srcs, s)
	}
	for i, s := range srcs {
		toks, err := tokenize(s)
		if err != nil {
			continue
		}
		if len(toks) > 700 && !c.Thorough() {
			toks = toks[:0:0]
		}
		check("edits of "+names[i], func(y func(string) bool) {
			mk := func(parts ...[]string) bool {
				var t []string
				for _, p := range parts {
					t = append(t, p...)
				}
				return y(strings.Join(t, " "))
			}
			if !y(s) {
				return
			}
			for k := range toks {
				if !mk(toks[:k]) || !mk(toks[:k], toks[k+1:]) || !mk(toks[:k+1], toks[k:]) {
					return
				}
				if k+1 < len(toks) && !mk(toks[:k], toks[k+1:k+2], toks[k:k+1], toks[k+2:]) {
					return
				}
				for w := 2; w < 8 && k+w <= len(toks); w++ {
					if !mk(toks[:k], toks[k+w:]) || !mk(toks[:k+w], toks[k:]) {
						return
					}
				}
				for _, t := range reps {
					if !mk(toks[:k], []string{t}, toks[k+1:]) || !mk(toks[:k], []string{t}, toks[k:]) {
						return
					}
				}
				// two edits at once for short programs
				if len(toks) <= Pick(c, 16, 30) {
					for j := k + 1; j < len(toks); j++ {
						if !mk(toks[:k], toks[k+1:j], toks[j+1:]) {
							return
						}
						for _, t := range reps {
							if !mk(toks[:k], toks[k+1:j], []string{t}, toks[j:]) || !mk(toks[:k], []string{t}, toks[k:j], toks[j+1:]) || !mk(toks[:k], []string{t}, toks[k+1:j], []string{t}, toks[j:]) {
								return
							}
						}
					}
				}
			}
		}, 20011)
	}
	// ---- a character of no token, anywhere
	stray := []string{"#", "$", "@", "\\", "^", "~", ".", "`", "\x7f", "\x80", "\x9f"}
	for b := 0; b < 32; b++ {
		if b < 9 || b > 13 {
			stray = append(stray, string([]byte{byte(b)}))
		}
	}
	forced = 'R'
	for i, s := range srcs {
		toks, err := tokenize(s)
		if err != nil || len(toks) > Pick(c, 400, 3000) {
			continue
		}
		check("stray characters in "+names[i], func(y func(string) bool) {
			for k := 0; k <= len(toks); k++ {
				for _, b := range stray {
					a, z := strings.Join(toks[:k], " "), strings.Join(toks[k:], " ")
					if !y(a+b+z) || !y(a+" "+b+" "+z) || !y(a+"\n"+b+"\n"+z) {
						return
					}
				}
			}
		}, 20011)
	}
	c.Outcome("accepted by the language", acc.Load())
	c.Outcome("rejected by the language", rej.Load())
	c.Outcome("not settled", unset.Load())
	c.Outcome("also run with the real command", reals.Load())
	for _, s := range []string{"f(x){switch(x)case 1:case 1:;}", "f(p){extrn a,;}", "f(x,y){x=x?y:1;}"} {
		c.Sample(map[string]any{"text": s, "language": string(gramVerdict(s))})
	}
}

// p19confirm judges the text with the real command, twice.
func (c *Ctx) p19confirm(part, src string, want byte) {
	for k := 0; k < 2; k++ {
		r := c.realRun([]byte(src))
		got := byte('R')
		if r.Code == 0 {
			got = 'A'
		}
		if want == '?' || got == want && badEnd(r) == "" {
			return
		}
		if k == 1 {
			c.Violation("grammar:"+keyOf([]byte(src)), fmt.Sprintf("%s: the language says %s, the compiler: status %d %s %s\n%s", part, map[byte]string{'A': "accepted", 'R': "rejected with a diagnostic"}[want], r.Code, badEnd(r), clip(r.Err), src), map[string]string{"program.b": src})
		}
	}
}
