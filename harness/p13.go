package main

import (
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync/atomic"
	"time"
)

func init() { checks["P13"] = checkP13 }

// p13files: sources that touch every kind of state a translation keeps (names,
// counters, strings, labels, switch tables, pushed-back characters), and
// sources whose translation stops at every kind of place.
func p13files() (good, bad []string) {
	good = []string{
		"",
		"x;",
		"x 1,2;y[3]4;f(){extrn x,y;x=y[1];}",
		"x[2];f(){extrn x;return(x[1]);}",
		"f(x){return(x);}",
		"f(){return(x(1));}",
		"x(){return(f);}",
		"f(x,y){auto f1,v[4];f1=x;v[1]=y;return(f1+v[1]);}",
		"f(){g(\"one\");g(\"two\");}",
		"s \"one\",\"three\";g(x){h(x,\"one\");}",
		"f(x){if(x)return(1);else return(2);}",
		"f(x){while(x)x=x-1;L:goto L;}",
		"f(x){L:if(x)goto M;M:goto L;}",
		"M(x){switch(x){case 1:x=2;case 'a':return(x);}}",
		"f(x){auto y;switch(x){case 2:y=1;}switch(y){case 2:x=1;case 3:;}return(x?y:x);}",
		"f(x){x=+1;x=<<2;x===y();x++;--x;return(!x);}",
		"x 0;f(){extrn x;x();}",
		"f(p){p(1,2);return(p==f);}",
		"_(){__();}v[];w[0];u 'abcd';",
		"/* c */f(){/* d */return/* e */('*n'+\"*t*e\");}",
		"f(){extrn a,b,c,d;a=b=c=d;}",
		"main(){f(f(1),f(2,f(3)));}",
		"f(a0,a1,a2,a3,a4,a5,a6,a7,a8,a9){return(a9);}",
	}
	bad = []string{
		"f(){x=1;}", "f(){", "f(){/*", "f(){g(\"ab", "f(){g('ab", "f(){goto L;}", "f(){L:L:;}", "f(){case 1:;}", "f(x){switch(x){case 1:;case 1:;}}", "x(){extrn x;x=1;}y(){x=2;}",
		"f(){auto a;auto a;}", "f(){return 1;}", "x y;", "x 1,;", "x[", "x[2", "f(x", "f(x,", "f(){else}", "f(){if(x)", "f(){g('*", "f(){g(\"*q\");}", "f(){1=2;}", "f(){x=", "f(){a-", "f(){a=<", "f(){a<", "f(){a+", "f(){/", "f(){auto", "f(){extrn x", "f(){5++;}", "}", "/", "'", "f(){(((((", "x 1;f(){x=1", "#", "\x00", "\xff", "f(){s(\"" + strings.Repeat("a", 5000),
	}
	return
}

func checkP13(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "states: histories of translations in one process (all ordered selections of up to the stated number of files from a set of valid and invalid sources, and every prefix of a source text before every valid source); transitions: translations; after each history every file's result or diagnostic is compared with that of the file alone in a fresh process"
	good, bad := p13files()
	_, srcs := c.corpus()
	all := append(append([]string{}, good...), bad...)
	nGood := len(good)
	// reference: each file alone in a fresh process
	type ref struct {
		ok  bool
		out string
	}
	alone := func(s string) ref {
		d := c.Temp()
		defer os.RemoveAll(d)
		mustWrite(filepath.Join(d, "f0.b"), []byte(s))
		r := run(Cmd{Dir: d, Env: c.env(), Args: limited(60, c.Blang, "--emit-llvm", "f0.b"), Timeout: 120 * time.Second})
		if r.Code == 0 {
			b, _ := os.ReadFile(filepath.Join(d, "f0.ll"))
			return ref{true, string(b)}
		}
		m := string(r.Err)
		m = strings.TrimPrefix(m, "blang: error: ")
		return ref{false, strings.TrimSpace(m)}
	}
	refs := make([]ref, len(all))
	Parallel(len(all), func(i int) { refs[i] = alone(all[i]) })
	for i := 0; i < nGood; i++ {
		if !refs[i].ok {
			refs[i].out = "REJECTED " + refs[i].out
		}
	}
	c.Phase("alone")
	if !c.WorkerOK {
		c.p13real(good, bad)
		return
	}
	pool := c.NewPool()
	defer pool.Close()
	// judge compares the answer to a group of files with the references
	judge := func(files []string, rs []ref, v Verdict) string {
		if v.St != 'A' && v.St != 'R' {
			return fmt.Sprintf("the compiler ended with %c", v.St)
		}
		p := strings.Split(v.Out, "\x00")
		if len(p) != len(files)+1 {
			return ""
		}
		firstBad := -1
		for i, r := range rs {
			if !r.ok {
				firstBad = i
				break
			}
		}
		if firstBad < 0 && v.St != 'A' {
			return "rejected together: " + p[0]
		}
		if firstBad >= 0 && v.St == 'A' {
			return "accepted together"
		}
		for i, r := range rs {
			got := p[i+1]
			switch {
			case r.ok && got == r.out:
			case r.ok && got == "-" && firstBad >= 0 && i > firstBad:
			case !r.ok && got == "-":
			case r.ok && got == "-":
				return fmt.Sprintf("no result for file %d", i+1)
			case r.ok:
				return fmt.Sprintf("file %d gives another result:\n%s\ninstead of\n%s", i+1, diffHint(got, r.out), "")
			default:
				return fmt.Sprintf("file %d is rejected alone and gives a result here", i+1)
			}
		}
		if firstBad >= 0 {
			a := strings.ReplaceAll(rs[firstBad].out, "f0.", "f.")
			b := strings.TrimSpace(strings.ReplaceAll(p[0], fmt.Sprintf("f%d.", firstBad), "f."))
			if a != b && !strings.HasSuffix(a, b) && !strings.Contains(a, "blang:") {
				return fmt.Sprintf("other diagnostic for file %d: %q instead of %q", firstBad+1, b, a)
			}
		}
		return ""
	}
	var hist, bads atomic.Int64
	type item struct {
		files []string
		rs    []ref
	}
	feed := func(part string, gen func(y func(item) bool)) {
		Stream(c, pool, gen, func(t item) Req {
			var f [][]byte
			for _, s := range t.files {
				f = append(f, []byte(s))
			}
			return Req{Mode: 'F', FailAt: -1, Files: f}
		}, func(t item, v Verdict) {
			hist.Add(1)
			c.States.Add(1)
			c.Transitions.Add(int64(len(t.files)))
			c.Traces.Add(1)
			if v.St == 'R' {
				bads.Add(1)
			}
			m := judge(t.files, t.rs, v)
			if m == "" {
				return
			}
			// again, in a fresh worker; if it needs the earlier history, with the same worker's kind of history
			fs := make([][]byte, len(t.files))
			for i, s := range t.files {
				fs[i] = []byte(s)
			}
			q := Req{Mode: 'F', FailAt: -1, Files: fs}
			for k := 0; k < 3; k++ {
				w := c.NewWorker()
				v2 := w.Batch([]Req{q})[0]
				if m2 := judge(t.files, t.rs, v2); m2 == "" {
					// together in a fresh process it is fine: does an earlier compilation matter?
					v3 := w.Batch([]Req{q})[0]
					if m3 := judge(t.files, t.rs, v3); m3 == "" {
						// any of the files of the set before
						ok := true
						for _, s := range all {
							w.Batch([]Req{{Mode: 'C', FailAt: -1, Files: [][]byte{[]byte(s)}}})
						}
						v4 := w.Batch([]Req{q})[0]
						ok = judge(t.files, t.rs, v4) == ""
						if ok {
							w.Close()
							return
						}
					}
				}
				w.Close()
			}
			var txt strings.Builder
			files := map[string]string{}
			for i, s := range t.files {
				fmt.Fprintf(&txt, "file %d: %s\n", i+1, clip([]byte(s)))
				files[fmt.Sprintf("f%d.b", i+1)] = s
			}
			c.Violation("history:"+keyOf([]byte(txt.String())), fmt.Sprintf("compiled together (or after other files):\n%s%s", txt.String(), m), files)
		})
		c.Phase(part)
	}
	pick := func(idx ...int) item {
		var t item
		for _, i := range idx {
			t.files = append(t.files, all[i])
			t.rs = append(t.rs, refs[i])
		}
		return t
	}
	wide := manyTexts()
	c.sameEachTime(pool, append(append([]string{}, all...), wide...), Pick(c, 8, 40))
	c.Outcome("files translated again and again", int64(len(all)+len(wide)))
	c.Phase("again and again")
	n := len(all)
	feed("pairs", func(y func(item) bool) {
		for i := 0; i < n; i++ {
			if !y(pick(i)) {
				return
			}
			for j := 0; j < n; j++ {
				if !y(pick(i, j)) {
					return
				}
			}
		}
	})
	// triples: the third file is judged after every pair, so only valid files come first here
	feed("triples", func(y func(item) bool) {
		for i := 0; i < nGood; i++ {
			for j := 0; j < nGood; j++ {
				for k := 0; k < n; k++ {
					if !y(pick(i, j, k)) {
						return
					}
				}
			}
		}
	})
	if c.Thorough() {
		feed("quadruples", func(y func(item) bool) {
			for i := 0; i < nGood; i++ {
				for j := 0; j < nGood; j++ {
					for k := 0; k < nGood; k++ {
						for l := 0; l < nGood; l++ {
							if !y(pick(i, j, k, l)) {
								return
							}
						}
					}
				}
			}
		})
	}
	// files of one definition each, over the same few names: all pairs and triples
	defs := p09defs()
	for _, t := range topsOfOne() {
		defs = append(defs, t)
	}
	drefs := make([]ref, len(defs))
	Parallel(len(defs), func(i int) { drefs[i] = alone(defs[i]) })
	dpick := func(idx ...int) item {
		var t item
		for _, i := range idx {
			t.files = append(t.files, defs[i])
			t.rs = append(t.rs, drefs[i])
		}
		return t
	}
	feed("definitions", func(y func(item) bool) {
		for i := range defs {
			for j := range defs {
				if !y(dpick(i, j)) {
					return
				}
			}
		}
		for i := range defs {
			for j := range defs {
				if !drefs[i].ok || !drefs[j].ok {
					continue
				}
				for k := range defs {
					if !c.Thorough() && (i%4 != 0 || j%4 == 3) {
						continue
					}
					if !y(dpick(i, j, k)) {
						return
					}
				}
			}
		}
	})
	// after a failed compilation: every prefix of a source, then every valid file
	// (one after the other in the same process)
	seq := func(part string, firsts []string, seconds []int) {
		type two struct {
			a string
			b int
		}
		chunk := c.Chunk
		c.Chunk = 400
		defer func() { c.Chunk = chunk }()
		ch := func(y func(two) bool) {
			for _, a := range firsts {
				for _, b := range seconds {
					if !y(two{a, -1}) || !y(two{a, b}) {
						return
					}
				}
			}
		}
		Stream(c, pool, ch, func(t two) Req {
			if t.b < 0 {
				return Req{Mode: 'C', FailAt: -1, Files: [][]byte{[]byte(t.a)}}
			}
			return Req{Mode: 'C', FailAt: -1, Files: [][]byte{[]byte(all[t.b])}}
		}, func(t two, v Verdict) {
			c.Transitions.Add(1)
			if t.b < 0 {
				return
			}
			c.States.Add(1)
			c.Traces.Add(1)
			hist.Add(1)
			r := refs[t.b]
			if v.St == 'A' && r.ok && v.Out == r.out || v.St == 'R' && !r.ok && strings.Contains(r.out, strings.TrimSpace(v.Out)) {
				return
			}
			for k := 0; k < 3; k++ {
				w := c.NewWorker()
				vs := w.Batch([]Req{{Mode: 'C', FailAt: -1, Files: [][]byte{[]byte(t.a)}}, {Mode: 'C', FailAt: -1, Files: [][]byte{[]byte(all[t.b])}}})
				w.Close()
				v = vs[1]
				if v.St == 'A' && r.ok && v.Out == r.out || v.St == 'R' && !r.ok && strings.Contains(r.out, strings.TrimSpace(v.Out)) {
					return
				}
			}
			c.Violation("after:"+keyOf([]byte(t.a+"|"+all[t.b])), fmt.Sprintf("after compiling\n%s\nin the same process, the file\n%s\ngives %c:\n%s", clip([]byte(t.a)), clip([]byte(all[t.b])), v.St, diffHint(v.Out, r.out)), map[string]string{"first.b": t.a, "second.b": all[t.b]})
		})
		c.Phase(part)
	}
	var prefixes []string
	for _, s := range append([]string{srcs[0]}, good...) {
		step := 1
		if len(s) > 400 {
			step = Pick(c, 3, 1)
		}
		for i := 0; i <= len(s); i += step {
			prefixes = append(prefixes, s[:i])
		}
	}
	var second []int
	for i := 0; i < n; i++ {
		if i < nGood || i%7 == 0 {
			second = append(second, i)
		}
	}
	seq("prefixes", prefixes, second)
	seq("pairs in sequence", append(append([]string{}, all...), srcs...), func() (l []int) {
		for i := range all {
			l = append(l, i)
		}
		return
	}())
	// long histories: one source many times, then every other one
	seq("repetition", func() (l []string) {
		for _, s := range []string{good[8], good[13], good[12], good[6]} {
			var b strings.Builder
			for k := 0; k < 300; k++ {
				b.WriteString(strings.NewReplacer("f(", fmt.Sprintf("f%d(", k), "s \"", fmt.Sprintf("s%d \"", k), "x(", fmt.Sprintf("x%d(", k), "M(", fmt.Sprintf("M%d(", k), "g(", "gg(").Replace(s))
			}
			l = append(l, b.String())
		}
		return
	}(), second)
	c.p13real(good, bad)
	c.Extra["bounds"] = map[string]any{"sources": n, "valid sources": nGood, "files per history": Pick(c, 3, 4), "prefixes": len(prefixes)}
	c.Outcome("histories", hist.Load())
	c.Outcome("histories with a rejected file", bads.Load())
	c.Sample(map[string]any{"history": []string{good[2], bad[3], good[8]}})
	c.Sample(map[string]any{"history": []string{prefixes[len(prefixes)/2], good[9]}})
}

func diffHint(a, b string) string {
	la, lb := strings.Split(a, "\n"), strings.Split(b, "\n")
	for i := range la {
		if i >= len(lb) || la[i] != lb[i] {
			x := "(end)"
			if i < len(lb) {
				x = lb[i]
			}
			return fmt.Sprintf("line %d: %q, alone: %q", i+1, la[i], x)
		}
	}
	return fmt.Sprintf("ends after line %d of %d", len(la), len(lb))
}

// p13real compiles groups of files with one run of the real command, by every
// route that keeps intermediate code, and compares with each file alone.
func (c *Ctx) p13real(good, bad []string) {
	tool := c.p12tooldir()
	files := []string{good[1], good[2], good[5], good[6], good[8], good[9], good[13], good[17], bad[0], bad[3], bad[7]}
	names := []string{"a.b", "b.b", "c.b", "d.b", "e.b", "f.b", "g.b", "h.b", "i.b", "j.b", "k.b"}
	n := len(files)
	// The command and the intermediate code it leaves: which names the saved
	// temporary files have is not looked at, only what is in them.
	exec := func(mode string, l []int) (Result, []string) {
		d := c.Temp()
		defer os.RemoveAll(d)
		cwd := mkdir(filepath.Join(d, "w"))
		args := []string{c.Blang, "--save-temps"}
		if mode != "" {
			args = append(args, mode)
		} else {
			args = append(args, "-o", "out")
		}
		for _, i := range l {
			mustWrite(filepath.Join(cwd, names[i]), []byte(files[i]))
			args = append(args, names[i])
		}
		r := run(Cmd{Dir: cwd, Env: []string{"PATH=" + tool, "HOME=" + d, "FCLANG_LOG=" + filepath.Join(d, "log"), "TMPDIR=" + d}, Args: args, Timeout: 100 * time.Second})
		var kept []string
		for f, s := range c.p12snapshot(cwd) {
			if strings.HasSuffix(f, ".ll") {
				kept = append(kept, s)
			}
		}
		sort.Strings(kept)
		return r, kept
	}
	ref := make([]string, n)
	rok := make([]bool, n)
	rerr := make([]string, n)
	for i := range files {
		r, m := exec("--emit-llvm", []int{i})
		rok[i], rerr[i] = r.Code == 0, string(r.Err)
		if len(m) > 0 {
			ref[i] = m[0]
		}
	}
	type job struct {
		mode string
		l    []int
	}
	var jobs []job
	for _, mode := range []string{"--emit-llvm", "-S", "-c", ""} {
		for i := 0; i < n; i++ {
			jobs = append(jobs, job{mode, []int{i}})
			for j := 0; j < n; j++ {
				if i == j {
					continue
				}
				jobs = append(jobs, job{mode, []int{i, j}})
				if c.Thorough() {
					for k := 0; k < n; k++ {
						if k != i && k != j {
							jobs = append(jobs, job{mode, []int{i, j, k}})
						}
					}
				}
			}
		}
	}
	check := func(j job) string {
		r, m := exec(j.mode, j.l)
		if r.Code == -3 || r.Code == -2 {
			return ""
		}
		firstBad := -1
		for k, i := range j.l {
			if !rok[i] {
				firstBad = k
				break
			}
		}
		if (firstBad < 0) != (r.Code == 0) {
			return fmt.Sprintf("exit status %d: %s", r.Code, clip(r.Err))
		}
		if firstBad >= 0 && string(r.Err) != rerr[j.l[firstBad]] {
			return fmt.Sprintf("diagnostic %q, alone: %q", clip(r.Err), rerr[j.l[firstBad]])
		}
		// Everything kept is the code of one of the files compiled, each once.
		left := map[string]int{}
		good := 0
		for k, i := range j.l {
			if rok[i] {
				left[ref[i]]++
				if firstBad < 0 || k < firstBad {
					good++
				}
			}
		}
		var odd []string
		for _, s := range m {
			if left[s] == 0 {
				odd = append(odd, s)
			} else {
				left[s]--
			}
		}
		if firstBad < 0 || j.mode == "--emit-llvm" {
			if len(odd) > 0 {
				for _, i := range j.l {
					if left[ref[i]] > 0 {
						return fmt.Sprintf("%s: %s", names[i], diffHint(odd[0], ref[i]))
					}
				}
				return "an intermediate file that is the code of none of the sources: " + clip([]byte(odd[0]))
			}
			if j.mode == "--emit-llvm" && len(m) < good {
				return fmt.Sprintf("%d of %d intermediate files", len(m), good)
			}
		}
		return ""
	}
	Parallel(len(jobs), func(i int) {
		if c.Stop() {
			return
		}
		c.States.Add(1)
		c.Transitions.Add(int64(len(jobs[i].l)))
		c.Traces.Add(1)
		msg := check(jobs[i])
		for k := 0; k < 3 && msg != ""; k++ {
			msg = check(jobs[i])
		}
		if msg != "" {
			fl := map[string]string{}
			var l []string
			for _, k := range jobs[i].l {
				fl[names[k]] = files[k]
				l = append(l, names[k])
			}
			c.Violation(fmt.Sprintf("command:%s:%s", jobs[i].mode, strings.Join(l, "+")), fmt.Sprintf("blang %s %s (each alone with --emit-llvm first)\n%s", jobs[i].mode, strings.Join(l, " "), msg), fl)
		}
	})
	c.Phase("real command")
}

// topsOfOne: every declaration or use of P15 alone in a file, the name spelled a
func topsOfOne() (out []string) {
	it := p15items()
	for _, param := range []bool{false, true} {
		for k := range it {
			_, u, order := p15build(it, []p15top{{f: p15func{param: param, items: []int{k}}}}, "a", true)
			out = append(out, strings.ReplaceAll(p15text(u, order, Tight), "#", ""))
		}
	}
	return
}
