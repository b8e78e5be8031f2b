package main

import (
	"regexp"
	"sort"
	"strings"
)

// Names the compiler makes up (blocks, storage, values, functions) must never
// meet a name of the program. The names it really makes up for a template are
// read from its own output, and the template's name Zq is then spelled like
// each of them.

var irName = regexp.MustCompile(`[%@]"?([A-Za-z0-9_$.\-]+)"?|(?m)^"?([A-Za-z0-9_$.\-]+)"?:`)

// derivedNames lists the names of the language that can be cut out of the names
// in the module made from src.
func derivedNames(mod, src string) []string {
	set := map[string]bool{}
	add := func(s string) {
		if isName(s) && !keywords[s] && len(s) < 60 {
			for i := 0; i < len(s); i++ {
				if !isIdent(s[i]) {
					return
				}
			}
			set[s] = true
		}
	}
	for _, m := range irName.FindAllStringSubmatch(mod, -1) {
		n := m[1] + m[2]
		for {
			add(n)
			add(strings.NewReplacer(".", "_", "-", "_", "$", "_").Replace(n))
			add(strings.NewReplacer(".", "", "-", "", "$", "").Replace(n))
			f := strings.FieldsFunc(n, func(r rune) bool { return r == '.' || r == '-' || r == '$' })
			for i := range f {
				add(f[i])
				add("_" + f[i])
				add(f[i] + "_")
				for j := i + 1; j <= len(f); j++ {
					add(strings.Join(f[i:j], "_"))
				}
			}
			_, rest, ok := strings.Cut(n, ".")
			if !ok {
				break
			}
			n = rest
		}
		// without a number at its end, or with the next ones
		t := strings.TrimRight(n, "0123456789")
		add(t)
		for _, d := range []string{"0", "1", "2", "3", "4", "5", "10"} {
			add(t + d)
		}
	}
	for _, s := range []string{"entry", "data", "_data", "v_data", "data_v", "v0", "v1", "_v", "v_", "__v", "v__", "str", "str0", "str_0", "_str_0", "tmp", "bb", "bb0", "retval", "ret", "this", "start", "_start", "init", "ptr", "alloca", "unreachable", "i64", "va_list", "va_start", "memset", "memcpy", "b", "c0", "Zq_", "_Zq", "label", "param", "L0", "case_0_1", "case1", "if_0_then", "while_0_cond", "switch_0_end", "cond_0_then", "unreachable_0", "end", "then", "body", "cond", "stmts", "cmp"} {
		set[s] = true
	}
	driver := map[string]bool{"t": true, "c": true, "o": true, "n": true, "d": true, "b": true, "h": true, "xsub3": true, "zz": true} // drv.c defines these
	used := map[string]bool{}
	for _, d := range []string{"#", "0"} {
		toks, _ := tokenize(strings.ReplaceAll(src, "#", d))
		for _, t := range toks {
			used[t] = true
		}
	}
	var out []string
	for s := range set {
		if !used[s] && !driver[s] {
			out = append(out, s)
		}
	}
	sort.Strings(out)
	return out
}

// namesFamily yields every template with its name Zq spelled in every dangerous
// way. The names read from the output change with the spelling itself (a name
// may be made from Zq), so this is done twice.
func (c *Ctx) namesFamily(pool *Pool, templates []string, yield func(key, src string) bool) {
	module := func(src string) string {
		var out string
		Stream(c, pool, func(y func(string) bool) { y(src) }, func(s string) Req { return Req{Mode: 'C', FailAt: -1, Files: [][]byte{[]byte(s)}} }, func(_ string, v Verdict) {
			if v.St == 'A' {
				out = v.Out
			}
		})
		return out
	}
	for _, t := range templates {
		mod := module(strings.ReplaceAll(t, "#", "0"))
		seen := map[string]bool{}
		for round := 0; round < 2; round++ {
			for _, n := range derivedNames(mod, t) {
				if seen[n] {
					continue
				}
				seen[n] = true
				if !yield(n+" in "+t, strings.ReplaceAll(t, "Zq", n)) {
					return
				}
			}
			if mod == "" {
				break
			}
			mod = module(strings.ReplaceAll(strings.ReplaceAll(t, "Zq", "x"), "#", "0"))
		}
	}
}

// templates with a label
var nameLabels = []string{
	"p#(){auto i;i=0;switch(c()){case 1:t(1);switch(c()){case 2:t(2);case 1:t(3);}case 0:t(4);}if(c())t(5);else t(6);while(c()){t(7);i=i+1;}t(c()?8:9);if(i)goto Zq;t(10);return(1);t(11);Zq:t(12);return(2);}",
	"p#(){auto i;i=2;Zq:t(1);switch(c()){case 0:t(2);case 1:t(3);goto e;}if(c()){t(4);}else{t(5);}t(c()?6:7);i=i-1;if(i)goto Zq;e:t(8);}",
	"p#(){auto k;k=c();switch(k){case 0:t(1);Zq:case 1:t(2);case 2:t(3);}if(k==5)goto Zq;while(c()){if(c())goto Zq;t(4);return;}t(c()?(c()?5:6):7);}",
	"p#(){if(c()){t(1);Zq:t(2);}else t(3);while(c()){t(4);if(c())return(3);}if(c())goto Zq;switch(c()){case 7:t(5);case 1:return;t(6);}}",
}

// templates with a variable
var nameVars = []string{
	"v[5];w[2]1,2;Zq 7;s 3;m 1,2;x;q#(){extrn v,w,s,m,x;t(v[4]);v[0]=1;v[4]=2;w[1]=x;}p#(){extrn Zq,v,w;t(Zq);v[0]=5;v[4]=6;Zq=8;q#();t(Zq);t(v[0]);t(v[4]);t(w[0]);t(w[1]);}",
	"Zq 7;v[5];w[2]1,2;s 3;m 1,2;x;p#(){extrn Zq,v,w,x,m;t(Zq);v[0]=5;v[4]=6;Zq=8;t(v[0]);t(v[4]);t(w[0]);t(w[1]);t(x);t(m);t(Zq);}",
	"v[5];Zq[6];w[2000];u[1030]1,2,3;p#(){extrn Zq,v,w,u;t(Zq[0]);v[0]=5;v[4]=6;w[1999]=9;u[1029]=3;Zq[0]=8;Zq[5]=9;t(v[0]);t(v[4]);t(Zq[0]);t(Zq[5]);t(w[0]);t(w[1999]);t(u[0]);t(u[2]);t(u[1029]);}",
	"v[4];p#(){extrn Zq,v;v[0]=5;v[3]=6;Zq=8;t(v[0]);t(v[3]);t(Zq);}Zq 3;",
	"Zq[]1,2;w[3];v[]4;p#(){extrn Zq,w,v;w[0]=3;w[2]=4;t(Zq[0]);t(Zq[1]);t(v[0]);Zq[0]=w[2];t(Zq[0]);t(w[0]);}",
	"v[5];Zq(a){extrn v;v[0]=a;return(v[0]+v[4]);}p#(){extrn v;auto f;v[4]=3;f=Zq;t(Zq(4));t(f(5));t(v[0]);t(v[4]);}",
	"q#(Zq,a,b){auto v[2],i;v[0]=a;v[1]=b;i=Zq;t(Zq);t(v[0]);t(v[1]);Zq=4;return(Zq+i+a+b);}p#(){t(q#(1,2,3));t(q#(4,5,6));}",
	"q#(a,Zq,b){auto v[2],i;v[0]=a;v[1]=b;i=Zq;switch(Zq){case 2:t(20);}if(a)t(Zq);while(i)i=i-1;t(v[0]+v[1]);Zq=4;return(Zq+i+a+b);}p#(){t(q#(1,2,3));t(q#(4,5,6));}",
	"q#(a){auto v[2],Zq,i;v[0]=a;v[1]=a;Zq=a+1;i=5;if(a){auto z;z=3;t(z);}t(Zq);t(v[0]+v[1]+i);Zq=4;return(Zq+i+a);}p#(){t(q#(1));t(q#(4));}",
	"q#(a){auto i,Zq[3],v[2];Zq[0]=a;Zq[2]=i;v[0]=a+1;v[1]=a+2;t(Zq[0]);t(Zq[2]);t(v[0]+v[1]+i);return(Zq[0]+i+a);}p#(){t(q#(1));t(q#(4));}",
	"Zq;q#(){extrn Zq;return(Zq++);}p#(){extrn Zq;t(q#());t(q#());Zq:t(Zq);if(Zq<3){q#();goto Zq;}}",
}

// namesCases turns the families into cases for the replay machine.
func (c *Ctx) namesCases(pool *Pool, templates []string, dom []int64, maxch int, yield func(*Case) bool) {
	c.namesFamily(pool, templates, func(key, src string) bool {
		u, err := parseUnit(src)
		if err != nil {
			fatal("template: %s", src)
		}
		return yield(&Case{Key: "spelling " + key, Src: src, Unit: u, Entry: "p#", Dom: dom, MaxCh: maxch})
	})
}
