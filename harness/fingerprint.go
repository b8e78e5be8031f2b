package main

import (
	"fmt"
	"hash/fnv"
	"os"
	"sort"
	"strings"
	"sync"
)

// fingerprint is no check: it prints a sum over the compiler's answers to a
// fixed set of texts, so that two working trees can be compared quickly when
// looking for changes the checks miss.
func init() { checks["fingerprint"] = fingerprint }

func fingerprint(c *Ctx) {
	pool := c.NewPool()
	defer pool.Close()
	var mu sync.Mutex
	sums := map[string]uint64{}
	part := func(name string, gen func(y func(string) bool)) {
		Stream(c, pool, gen, func(s string) Req { return Req{Mode: 'C', FailAt: -1, Files: [][]byte{[]byte(s)}} }, func(s string, v Verdict) {
			h := fnv.New64a()
			h.Write([]byte(s))
			h.Write([]byte{0, v.St})
			if v.St == 'A' { // the wording of diagnostics is free
				h.Write([]byte(v.Out))
			}
			mu.Lock()
			sums[name] += h.Sum64()
			mu.Unlock()
		})
	}
	less := 0
	if os.Getenv("VERIF_FP") == "small" {
		less = 1
	}
	for _, f := range p19fams {
		f := f
		toks := f.tokens()
		part(f.name, func(y func(string) bool) {
			var rec func(s, sep string, k int) bool
			rec = func(s, sep string, k int) bool {
				if !y(f.pre + s + f.post) {
					return false
				}
				if k == min(f.max-1, 4)-less || sep == "" && k == min(f.max-2, 3)-less {
					return true
				}
				for _, t := range toks {
					if !rec(s+sep+t, sep, k+1) {
						return false
					}
				}
				return true
			}
			_ = rec("", " ", 0) && rec("", "", 0)
		})
	}
	part("statements", func(y func(string) bool) {
		for _, a := range p09stm {
			for _, b := range p09stm {
				for _, d := range []string{"", "x=1;", "return;", "L:M:;"} {
					if !y("e;g(){}f(x){" + a + b + d + "}") {
						return
					}
				}
			}
		}
	})
	defs := append(p09defs(), topsOfOne()...)
	part("definitions", func(y func(string) bool) {
		for _, a := range defs {
			for _, b := range defs {
				if !y(a + b) {
					return
				}
			}
		}
	})
	_, srcs := c.corpus()
	srcs = append(append(append([]string{}, srcs...), p07good...), p07bad...)
	part("corpus", func(y func(string) bool) {
		for _, s := range srcs {
			for k := 0; k <= min(len(s), 1500-1200*less); k++ {
				if !y(s[:k]) || k < len(s) && (!y(s[:k]+s[k+1:]) || !y(s[:k]+" "+s[k:]) || !y(s[:k]+"\"'*(1;"[k%6:k%6+1]+s[k:])) {
					return
				}
			}
			if !y(s) {
				return
			}
		}
	})
	part("characters", func(y func(string) bool) {
		for i := 0; i < 256; i++ {
			for j := 0; j < 256; j++ {
				b := string([]byte{byte(i), byte(j)})
				for _, f := range []string{"f(){x(%);}", "f(){x('%);}", "f(){x(\"%\");}", "a%;", "f(a){a=1%2;}", "f(a){a%1;}", "f(){%a:;}", "/*%/f(){}"} {
					if !y(strings.Replace(f, "%", b, 1)) {
						return
					}
				}
			}
		}
		for _, l := range []int{9, 20, 40, 70, 300, 5000} {
			for _, s := range []string{"1", "7", "9", "01", "a", "_"} {
				if !y("f(x){x="+strings.Repeat(s, l)+";}") || !y(strings.Repeat(s, l)+";") || !y("v["+strings.Repeat(s, l)+"];") || !y("a 1,"+strings.Repeat(s, l)+";") || !y("f(x){switch(x){case "+strings.Repeat(s, l)+":;}}") || !y("f(x){auto v["+strings.Repeat(s, l)+"];}") || !y("f(x){x=\""+strings.Repeat(s, l)+"\";}") || !y("f(x){x='"+strings.Repeat(s, l)+"';}") {
					return
				}
			}
		}
	})
	for _, t := range append(append([]string{}, nameLabels...), nameVars...) {
		part("names", func(y func(string) bool) {
			for _, n := range derivedNames("", t) {
				if !y(strings.ReplaceAll(strings.ReplaceAll(t, "Zq", n), "#", "")) {
					return
				}
			}
		})
	}
	var l []string
	for n, s := range sums {
		l = append(l, fmt.Sprintf("%s %016x", n, s))
	}
	sort.Strings(l)
	fmt.Println("FP " + strings.Join(l, "\nFP "))
}
