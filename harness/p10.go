package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() { checks["P10"] = checkP10 }

// route is a way from a source file to an executable: the stages run before the
// final link, each as (flags, input suffix, output suffix).
type route struct {
	name   string
	stages [][3]string
}

var p10routes = []route{
	{"direct", nil},
	{"-c", [][3]string{{"-c", ".b", ".o"}}},
	{"-S,link", [][3]string{{"-S", ".b", ".s"}}},
	{"-S,-c", [][3]string{{"-S", ".b", ".s"}, {"-c", ".s", ".o"}}},
	{"--emit-llvm,link", [][3]string{{"--emit-llvm", ".b", ".ll"}}},
	{"--emit-llvm,-c", [][3]string{{"--emit-llvm", ".b", ".ll"}, {"-c", ".ll", ".o"}}},
	{"--emit-llvm,-S,-c", [][3]string{{"--emit-llvm", ".b", ".ll"}, {"-S", ".ll", ".s"}, {"-c", ".s", ".o"}}},
}

type p10exe struct {
	rt    route
	level int
	debug bool
}

func (x p10exe) String() string {
	s := fmt.Sprintf("-O%d", x.level)
	if x.debug {
		s += " -g"
	}
	return s + " by " + x.rt.name
}

func p10all() (xs []p10exe) {
	for _, rt := range p10routes {
		for lv := 0; lv < 4; lv++ {
			for _, g := range []bool{false, true} {
				xs = append(xs, p10exe{rt, lv, g})
			}
		}
	}
	return
}

// build makes the executable dir/x from dir/prog.b; extra inputs come before
// and after it on the command line of the link.
func (c *Ctx) p10build(dir string, x p10exe, home string, before, after []string) (string, string) {
	opts := []string{"-O" + strconv.Itoa(x.level)}
	if x.debug {
		opts = append(opts, "-g")
	}
	env := append(c.env(), "HOME="+home)
	step := func(args ...string) string {
		r := run(Cmd{Dir: dir, Env: env, Args: limited(200, append(append([]string{c.Blang}, opts...), args...)...), Timeout: 600 * time.Second})
		if r.Code != 0 {
			return fmt.Sprintf("blang %s %s: status %d %s\n%s", strings.Join(opts, " "), strings.Join(args, " "), r.Code, clip(r.Out), clip(r.Err))
		}
		return ""
	}
	in := "prog.b"
	for _, st := range x.rt.stages {
		out := "prog" + st[2]
		if m := step(st[0], "-o", out, in); m != "" {
			return "", m
		}
		in = out
	}
	args := []string{"-o", "x"}
	args = append(args, before...)
	args = append(args, in)
	args = append(args, after...)
	if m := step(args...); m != "" {
		return "", m
	}
	return filepath.Join(dir, "x"), ""
}

func checkP10(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "states: nodes of the reference machine over the program set (every n-th program of the enumerations of P01 to P06, and every example program); each program is built by every route (direct; through object, assembly and intermediate code, alone and in sequence) x -O0..-O3 x with and without -g, and every run of the model is replayed in every one of these executables; the emitted text is compared between repeated compilations"
	c.Assumptions = []string{"undefined runs (division by zero, shift counts outside 0..63 and so on) are left out of the program set"}
	home := mkdir(filepath.Join(c.Scratch, "home"))
	mkdir(filepath.Join(home, ".local/lib"))
	if r := run(Cmd{Args: []string{"cp", filepath.Join(c.LibDir, "libb.a"), filepath.Join(home, ".local/lib/libb.a")}}); r.Code != 0 {
		fatal("cp: %s", r.Err)
	}
	fdrv := filepath.Join(c.Scratch, "fdrv.o")
	if r := run(Cmd{Args: []string{"clang", "-O1", "-ffreestanding", "-fno-stack-protector", "-fno-pic", "-w", "-c", "-o", fdrv, filepath.Join(c.Root, "cdrv/fdrv.c")}}); r.Code != 0 {
		fatal("fdrv: %s", r.Err)
	}
	// --- the program set
	want := Pick(c, 100, 2000) // programs per enumeration
	var cases []*Case
	total := map[string]int{}
	var more []*Case // programs run at every level only
	wantMore := Pick(c, 500, 20000)
	c.walkCases(Pick(c, 250000, 1200000), []int{want, wantMore}, func(id string, k int, cs *Case) {
		if k == 0 {
			total[id]++
			cases = append(cases, cs)
		} else {
			more = append(more, cs)
		}
	})
	c.Phase("collect")
	c.RunCases(BatchOpts{Levels: []int{0, 1, 2, 3}, MaxCases: 400, KeyPrefix: "level:"}, func(yield func(*Case) bool) {
		for _, cs := range more {
			if len(cs.Src) < 20000 && !yield(cs) {
				return
			}
		}
	})
	c.Outcome("programs of the enumerations run at every level", int64(len(more)))
	c.Phase("enumerations at every level")
	c.Extra["programs per enumeration"] = total
	c.p10levels()
	cases = append(cases, p10idioms()...)
	c.Phase("collect")
	xs := p10all()
	var names []string
	for _, x := range xs {
		names = append(names, x.String())
	}
	c.Extra["ways to build each program"] = names
	// batches
	var batches [][]*Case
	size := Pick(c, 150, 400)
	for lo := 0; lo < len(cases); lo += size {
		batches = append(batches, cases[lo:min(lo+size, len(cases))])
	}
	for _, b := range batches {
		var nodes int64
		Parallel(len(b), func(i int) {
			b[i].explore()
			if len(b[i].runs) > 4000 { // long enumerations are judged by their own checks
				b[i].runs = b[i].runs[:4000]
			}
			atomic.AddInt64(&nodes, b[i].nodes)
		})
		c.States.Add(nodes)
		c.Transitions.Add(nodes - int64(len(b)))
	}
	c.Phase("explore")
	br := &batchRunner{c: c}
	prep := func(dir string, b []*Case) int {
		var src bytes.Buffer
		for i, cs := range b {
			src.WriteString(cs.text(i))
		}
		src.WriteString("main(){return(xrun());}\n")
		mustWrite(filepath.Join(dir, "prog.b"), src.Bytes())
		var t bytes.Buffer
		t.WriteString(".globl bbss_lo\n.bss\n.balign 64\nbbss_lo:\n.zero 64\n.data\n.globl vtab, bdata_lo\n.balign 64\nvtab:\n")
		for i, cs := range b {
			fmt.Fprintf(&t, ".quad \"b.%s\"\n", strings.ReplaceAll(cs.Entry, "#", strconv.Itoa(i)))
		}
		t.WriteString(".section .rodata\n.globl runs_data\n.balign 64\nruns_data:\n.incbin \"" + filepath.Join(dir, "runs") + "\"\n")
		t.WriteString(".data\n.balign 64\nbdata_lo:\n.section .note.GNU-stack,\"\",@progbits\n")
		mustWrite(filepath.Join(dir, "tab.s"), t.Bytes())
		mustWrite(filepath.Join(dir, "end.s"), []byte(".data\n.globl bdata_hi\n.balign 64\nbdata_hi:\n.section .note.GNU-stack,\"\",@progbits\n"))
		return br.runsFile(filepath.Join(dir, "runs"), b)
	}
	sup := func(dir string) string {
		for _, n := range []string{"tab", "end"} {
			if r := run(Cmd{Dir: dir, Args: []string{"clang", "-c", "-o", n + ".o", n + ".s"}}); r.Code != 0 {
				return string(r.Err)
			}
		}
		return ""
	}
	// try builds and runs one batch one way; "" when as expected
	try := func(dir string, b []*Case, x p10exe, n int, tab string) string {
		exe, msg := c.p10build(dir, x, home, []string{fdrv, filepath.Join(tab, "tab.o")}, []string{filepath.Join(tab, "end.o")})
		if msg != "" {
			return "building failed: " + msg
		}
		r := run(Cmd{Dir: dir, Args: limited(100, exe), Timeout: 300 * time.Second})
		out := string(r.Out)
		if r.Code == 7 && out == fmt.Sprintf("DONE %d\n", n) && len(r.Err) == 0 {
			return ""
		}
		return fmt.Sprintf("exit status %d %s, output %q (expected status 7, DONE %d)", r.Code, r.Signal, clip(r.Out), n)
	}
	type job struct {
		b  int
		xs []p10exe
	}
	var jobs []job
	for i := range batches {
		for k := 0; k < len(xs); k += 7 {
			jobs = append(jobs, job{i, xs[k:min(k+7, len(xs))]})
		}
	}
	tabs := make([]string, len(batches))
	counts := make([]int, len(batches))
	Parallel(len(batches), func(i int) {
		tabs[i] = c.Temp()
		counts[i] = prep(tabs[i], batches[i])
		if m := sup(tabs[i]); m != "" {
			fatal("tables: %s", m)
		}
	})
	var mu sync.Mutex
	reported := map[int]bool{}
	Parallel(len(jobs), func(j int) {
		i := jobs[j].b
		for _, x := range jobs[j].xs {
			if c.Stop() {
				return
			}
			dir := c.Temp()
			if r := run(Cmd{Args: []string{"cp", filepath.Join(tabs[i], "prog.b"), dir}}); r.Code != 0 {
				fatal("cp")
			}
			msg := try(dir, batches[i], x, counts[i], tabs[i])
			os.RemoveAll(dir)
			if msg == "" {
				c.Traces.Add(int64(counts[i]))
				continue
			}
			mu.Lock()
			dup := reported[i]
			reported[i] = true
			mu.Unlock()
			if dup {
				return
			}
			// find a smallest group of programs that shows it
			fails := func(b []*Case) (string, string) {
				d := c.Temp()
				defer os.RemoveAll(d)
				n := prep(d, b)
				if sup(d) != "" {
					return "", ""
				}
				src, _ := os.ReadFile(filepath.Join(d, "prog.b"))
				return try(d, b, x, n, d), string(src)
			}
			cur := batches[i]
			for len(cur) > 1 {
				h := len(cur) / 2
				if m, _ := fails(cur[:h]); m != "" {
					cur = cur[:h]
				} else if m, _ := fails(cur[h:]); m != "" {
					cur = cur[h:]
				} else {
					break
				}
			}
			src := ""
			for k := 0; k < 3; k++ {
				m, s := fails(cur)
				if m == "" {
					return
				}
				msg, src = m, s
			}
			c.Violation("route:"+cur[0].Key, fmt.Sprintf("built %s: %s\nprogram:\n%s", x, msg, clip([]byte(src))), map[string]string{"prog.b": src})
			return
		}
	})
	c.Phase("routes")
	c.Outcome("programs", int64(len(cases)))
	c.Outcome("executables", int64(len(batches)*len(xs)))
	if len(cases) > 0 {
		for i := 0; i < len(cases); i += len(cases)/6 + 1 {
			c.Sample(map[string]any{"program": cases[i].text(0), "runs": len(cases[i].runs)})
		}
	}
	// --- whole programs: same output, status for every way to build them
	type whole struct{ name, src, in string }
	var ws []whole
	cn, cs := c.corpus()
	for i, n := range cn {
		s := cs[i]
		ins := []string{""}
		if n == "b.b" {
			ins = []string{"", "main(){}", "main() { extrn a; auto x; x = 1; if (x == 2) a = x + 3; while (x) x = x - 1; return (a); }\n"}
		}
		for _, in := range ins {
			ws = append(ws, whole{n, s, in})
		}
	}
	for st := range []int{0, 1, 2} {
		ws = append(ws, whole{fmt.Sprintf("status%d.b", st), fmt.Sprintf("main(){extrn fout;printf(\"a%%d*n\",%d);fout=1;printf(\"e*n\");fout=0;if(%d==2)exit();return(%d);}", st, st, 3+st*90), ""})
	}
	res := make([][]string, len(ws))
	var rj [][2]int
	for i := range ws {
		res[i] = make([]string, len(xs))
		for k := range xs {
			rj = append(rj, [2]int{i, k})
		}
	}
	one := func(i, k int) string {
		dir := c.Temp()
		defer os.RemoveAll(dir)
		mustWrite(filepath.Join(dir, "prog.b"), []byte(ws[i].src))
		exe, msg := c.p10build(dir, xs[k], home, nil, nil)
		if msg != "" {
			return "not built"
		}
		r := run(Cmd{Dir: dir, Args: limited(20, exe), Stdin: []byte(ws[i].in), Timeout: 100 * time.Second})
		return fmt.Sprintf("status %d out %q err %q", r.Code, r.Out, r.Err)
	}
	Parallel(len(rj), func(j int) {
		if !c.Stop() {
			res[rj[j][0]][rj[j][1]] = one(rj[j][0], rj[j][1])
		}
	})
	for i := range ws {
		if c.Stop() {
			break
		}
		for k := range xs {
			c.Traces.Add(1)
			if res[i][k] == res[i][0] {
				continue
			}
			a, b := one(i, 0), one(i, k)
			if a == res[i][0] && b == res[i][k] && one(i, k) == b && one(i, 0) == a {
				c.Violation("whole:"+ws[i].name, fmt.Sprintf("%s with input %q\nbuilt %s: %s\nbuilt %s: %s", ws[i].name, ws[i].in, xs[0], clip([]byte(a)), xs[k], clip([]byte(b))), map[string]string{"prog.b": ws[i].src})
				break
			}
		}
	}
	c.Outcome("whole programs", int64(len(ws)))
	c.Phase("whole programs")
	c.p10endless()
	// --- repeated compilation gives identical text
	pool := c.NewPool()
	defer pool.Close()
	var texts []string
	for _, w := range ws {
		texts = append(texts, w.src)
	}
	for i := range batches {
		b, _ := os.ReadFile(filepath.Join(tabs[i], "prog.b"))
		texts = append(texts, string(b))
	}
	texts = append(texts, manyTexts()...)
	reps := Pick(c, 8, 40)
	c.sameEachTime(pool, texts, reps)
	c.Extra["bounds"] = map[string]any{"routes": len(p10routes), "levels": 4, "debug": 2, "repeated compilations": reps}
	c.Outcome("texts compiled repeatedly", int64(len(texts)))
	c.Phase("repeat")
}

// p10levels runs programs whose meaning an optimizer could lose: wrapping
// arithmetic whose operands are related, loops whose variables wrap, stores and
// loads of one word through different names.
func (c *Ctx) p10levels() {
	x := V("x")
	dom := []int64{0, 1, -1, 2, 1<<63 - 1, -1 << 63, 1 << 62, -1<<63 + 1, 1 << 32, 7}
	small := []int64{0, 3, 1<<63 - 1, -1 << 63}
	o := BatchOpts{Levels: []int{0, 1, 2, 3}, MaxCases: 1500, KeyPrefix: "level:"}
	ks := Pick(c, []int64{1, -1 << 63}, []int64{1, 2, -1, 63, 1<<63 - 1, -1 << 63, 1 << 32, 0})
	c.RunCases(o, func(y func(*Case) bool) {
		one := func(key string, body ...*Stmt) bool {
			return y(prog(key, &Unit{Funcs: []*Func{fn("p#", nil, append([]*Stmt{Auto(Decl{Name: "x"}), set(x, Call("c"))}, body...)...)}}, Tight, dom, 1))
		}
		for _, op1 := range binOps {
			for _, op2 := range binOps {
				for _, k := range ks {
					e := Bin(op2, Bin(op1, x, Num(k)), x)
					if !one("related:"+e.String(), Return(e)) {
						return
					}
					e = Bin(op2, x, Bin(op1, Num(k), x))
					if !one("related:"+e.String(), Return(e)) {
						return
					}
					for _, op3 := range binOps {
						if !c.Thorough() && k != 1 && k != -1<<63 {
							continue
						}
						e := Bin(op2, Bin(op1, x, Num(k)), Bin(op3, x, Num(1)))
						if !one("related:"+e.String(), Return(e)) {
							return
						}
						e = Bin(op3, Bin(op2, Bin(op1, x, Num(k)), Num(1)), x)
						if !one("related:"+e.String(), Return(e)) {
							return
						}
					}
				}
			}
		}
	})
	c.Phase("related operands")
	i, n := V("i"), V("n")
	c.RunCases(o, func(y func(*Case) bool) {
		for _, cmp := range []string{"<", "<=", ">", ">=", "==", "!="} {
			for _, op := range []string{"+", "-", "*", "<<", ">>", "&", "|"} {
				for _, k := range Pick(c, []int64{0, 1<<63 - 1, -1 << 63}, []int64{0, 1 << 62, 1<<63 - 1, -1 << 63}) {
					for _, m := range Pick(c, []int64{1, 3, -1, 1<<63 - 1}, []int64{1, 2, 3, -1, 1 << 61, 1<<63 - 1}) {
						loop := While(Bin("&", Bin(cmp, i, Num(k)), Bin("<", n, Num(6))), Block(set(i, Bin(op, i, Num(m))), tcall(i), Ex(Inc(KPostInc, n))))
						f := fn("p#", nil, Auto(Decl{Name: "i"}, Decl{Name: "n"}), set(i, Call("c")), loop, Return(Bin("-", i, n)))
						if !y(prog(fmt.Sprintf("loop:%s%d;%s%d", cmp, k, op, m), &Unit{Funcs: []*Func{f}}, Tight, append(small, 5), 1)) {
							return
						}
						// the loop's count decides alone
						loop = While(Bin(cmp, i, Num(k)), Block(set(i, Bin(op, i, Num(m))), If(Bin(">=", Inc(KPreInc, n), Num(6)), Return(i), nil)))
						f = fn("p#", nil, Auto(Decl{Name: "i"}, Decl{Name: "n"}), set(i, Call("c")), loop, Return(Bin("-", i, n)))
						if !y(prog(fmt.Sprintf("loop2:%s%d;%s%d", cmp, k, op, m), &Unit{Funcs: []*Func{f}}, Tight, small, 1)) {
							return
						}
					}
				}
			}
		}
	})
	c.Phase("loops")
	// a step away from a value, then a comparison with it
	c.RunCases(o, func(y func(*Case) bool) {
		z, u := V("z"), V("u")
		inc := func(k EK, e *Expr) *Stmt { return Ex(Inc(k, e)) }
		type step struct {
			name string
			do   func(e *Expr) *Stmt
		}
		steps := []step{{"++_", func(e *Expr) *Stmt { return inc(KPreInc, e) }}, {"_++", func(e *Expr) *Stmt { return inc(KPostInc, e) }},
			{"--_", func(e *Expr) *Stmt { return inc(KPreDec, e) }}, {"_--", func(e *Expr) *Stmt { return inc(KPostDec, e) }},
			{"_=-x", func(e *Expr) *Stmt { return set(e, Un("-", x)) }}}
		for _, op := range []string{"+", "-", "*", "<<", ">>", "/", "%", "&", "|"} {
			for _, k := range []int64{1, 2, 3, 1 << 62, 1<<63 - 1} {
				if op == "<<" || op == ">>" {
					k = map[int64]int64{1: 1, 2: 2, 3: 3, 1 << 62: 62, 1<<63 - 1: 63}[k]
				}
				op, k := op, k
				steps = append(steps, step{fmt.Sprintf("_=%s%d", op, k), func(e *Expr) *Stmt { return Ex(Asg(op, e, Num(k))) }},
					step{fmt.Sprintf("_=_%s%d", op, k), func(e *Expr) *Stmt { return set(e, Bin(op, e, Num(k))) }},
					step{fmt.Sprintf("_=%d%s_", k, op), func(e *Expr) *Stmt { return set(e, Bin(op, Num(k), e)) }})
			}
			op := op
			steps = append(steps, step{"_=" + op + "x", func(e *Expr) *Stmt { return Ex(Asg(op, e, x)) }})
		}
		var checks []*Expr
		for _, op := range []string{"<", "<=", ">", ">=", "==", "!="} {
			checks = append(checks, Bin(op, z, x), Bin(op, z, Num(0)), Bin(op, x, z), Bin(op, Bin("-", z, Num(1)), x), Bin(op, Bin("-", z, x), Num(0)), Bin(op, Bin("/", z, Num(2)), x), Bin(op, Bin(">>", Paren(Bin("<<", z, Num(1))), Num(1)), z), Bin(op, Un("-", z), x))
		}
		edge := []int64{0, 1, -1, 2, 1<<63 - 1, -1 << 63, 1<<63 - 2, -1<<63 + 1, 1 << 62, -1 << 62}
		head := []*Stmt{Auto(Decl{Name: "x"}, Decl{Name: "z"}, Decl{Name: "u"}, Decl{Name: "v", Vec: true, Size: 2, Src: "2"}), set(x, Call("c")), set(z, x)}
		cells := []struct {
			name string
			cell *Expr
			pre  []*Stmt
			post []*Stmt
		}{{"z", z, nil, nil}, {"*u", Deref(u), []*Stmt{set(u, Addr(z))}, nil}, {"v[1]", Idx(V("v"), Num(1)), []*Stmt{set(Idx(V("v"), Num(1)), x)}, []*Stmt{set(z, Idx(V("v"), Num(1)))}}}
		for _, cell := range cells {
			for _, a := range steps {
				for j := -1; j < Pick(c, 4, len(steps)); j++ {
					if cell.name != "z" && j >= 0 && !c.Thorough() {
						continue
					}
					if cell.name == "*u" && (strings.HasPrefix(a.name, "_++") || strings.HasPrefix(a.name, "_--") || j >= 0 && (strings.HasPrefix(steps[j].name, "_++") || strings.HasPrefix(steps[j].name, "_--"))) {
						continue // (*u)++ is not in the language
					}
					name := a.name
					body := append(append(append([]*Stmt{}, head...), cell.pre...), a.do(cell.cell))
					if j >= 0 {
						body = append(body, steps[j].do(cell.cell))
						name += ";" + steps[j].name
					}
					body = append(body, cell.post...)
					// the comparisons apart (each with nothing else in sight) or all together
					var all []*Expr
					for _, ck := range checks {
						all = append(all, ck)
					}
					for k := 0; k < len(all); k += 8 {
						l := append(append([]*Stmt{}, body...), Ex(Call("n", append([]*Expr{Num(8)}, all[k:k+8]...)...)), Return(z))
						if !y(prog(fmt.Sprintf("step:%s:%s:%d", cell.name, name, k), &Unit{Funcs: []*Func{fn("p#", nil, l...)}}, Tight, edge, 1)) {
							return
						}
					}
				}
			}
		}
	})
	c.Phase("steps and comparisons")
	// one word reached through different names: every sequence of accesses
	c.RunCases(o, func(y func(*Case) bool) {
		p, q, v, g, gv := V("p"), V("q"), V("v"), V("g#"), V("w#")
		targets := []struct {
			name string
			init *Expr
			self func() *Expr
		}{
			{"auto", Addr(x), func() *Expr { return x }},
			{"vector", Addr(Idx(v, Num(1))), func() *Expr { return Idx(v, Num(1)) }},
			{"global", Addr(g), func() *Expr { return g }},
			{"gvector", Addr(Idx(gv, Num(1))), func() *Expr { return Idx(gv, Num(1)) }},
			{"pointer", Addr(V("u")), func() *Expr { return Deref(V("u")) }},
		}
		for _, tg := range targets {
			self := tg.self
			names := []func() *Expr{self, func() *Expr { return Deref(p) }, func() *Expr { return Idx(q, Num(1)) }, func() *Expr { return Idx(q, V("one")) }}
			var acts []func(k int64) *Stmt
			for _, nm := range names {
				nm := nm
				acts = append(acts, func(k int64) *Stmt { return set(nm(), Bin("+", self(), Num(k))) }, func(k int64) *Stmt { return tcall(nm()) })
			}
			acts = append(acts, func(k int64) *Stmt { return Ex(Call("m#", p, Num(k))) }, func(k int64) *Stmt { return Ex(Call("m#", Bin("+", q, V("one")), Num(k))) })
			if tg.name == "pointer" {
				acts = append(acts, func(k int64) *Stmt { return set(V("u"), Addr(V("k"))) })
			}
			depth := Pick(c, 2, 4)
			var rec func(l []int) bool
			rec = func(l []int) bool {
				if len(l) > 0 {
					body := []*Stmt{Auto(Decl{Name: "x"}, Decl{Name: "u"}, Decl{Name: "k"}, Decl{Name: "p"}, Decl{Name: "q"}, Decl{Name: "one"}, Decl{Name: "v", Vec: true, Size: 3, Src: "3"}), Extrn("g#", "w#"),
						set(V("u"), Addr(V("k"))), set(Idx(v, Num(1)), Num(5)), set(V("one"), Num(1)), set(p, Addr(self())), set(q, Bin("-", p, Num(1)))}
					for k, a := range l {
						body = append(body, acts[a](int64(k+1)*10))
					}
					body = append(body, tcall(self()), Return(Bin("+", Deref(p), Idx(q, Num(1)))))
					m := fn("m#", []string{"a", "b"}, set(Deref(V("a")), Bin("+", Deref(V("a")), V("b"))))
					u := &Unit{Globs: []*Glob{{Name: "g#"}, {Name: "w#", Vec: true, Size: 3, Src: "3"}}, Funcs: []*Func{m, fn("p#", nil, body...)}}
					if !y(prog(fmt.Sprintf("alias:%s:%v", tg.name, l), u, Tight, []int64{0}, 0)) {
						return false
					}
				}
				if len(l) == depth {
					return true
				}
				for a := range acts {
					if !rec(append(l[:len(l):len(l)], a)) {
						return false
					}
				}
				return true
			}
			if !rec(nil) {
				return
			}
		}
	})
	c.Phase("aliases")
}

// walkCases walks the enumerations of P01 to P06 and hands over, for each number
// in wants, about so many programs of each, evenly spread (f gets its index).
func (c *Ctx) walkCases(most int, wants []int, f func(id string, k int, cs *Case)) {
	for _, id := range []string{"P01", "P02", "P03", "P04", "P05", "P06"} {
		fn := checks[id]
		// the enumeration is walked twice: to count it and to take every n-th program
		walk := func(f func(k int, cs *Case)) (all int) {
			sub := &Ctx{ID: id, Tier: "quick", Root: c.Root, Repo: c.Repo, Scratch: c.Scratch, Blang: c.Blang, Start: c.Start, Deadline: c.Deadline,
				knownHit: map[string]bool{}, outcomes: map[string]int64{}, Extra: map[string]any{}, WorkerOK: c.WorkerOK}
			sub.collect = func(o BatchOpts, cs *Case) bool {
				all++
				if !strings.Contains(cs.Src, "d(") && o.Extra == "" && o.ExtraC == "" && o.MaxCases != 1 {
					f(all, cs)
				}
				return all < most
			}
			fn(sub)
			return
		}
		n := walk(func(int, *Case) {})
		walk(func(k int, cs *Case) {
			for w, want := range wants {
				if k%(max(1, n/want)|1) == 0 {
					f(id, w, cs)
				}
			}
		})
	}
}

// p10idioms are loops and runs of stores that fill, copy or compare words: an
// optimizer likes to replace them by calls of routines the program does not have.
func p10idioms() (l []*Case) {
	add := func(key, src string, choices int) {
		u, err := parseUnit(src)
		if err != nil {
			fatal("idiom %s: %v", key, err)
		}
		l = append(l, &Case{Key: "idiom:" + key, Src: src, Unit: u, Entry: "p#", Dom: []int64{0, 1, 7, 30}, MaxCh: choices})
	}
	body := map[string]string{
		"fill down":       "while(n--) *p++ = 0;",
		"fill ones down":  "while(n--) *p++ = -1;",
		"fill up":         "i=0; while(i<n){ p[i]=0; i++; }",
		"fill value":      "i=0; while(i<n){ p[i]=k; i++; }",
		"fill byte":       "i=0; while(i<n){ p[i]=0101010101010101010101; i++; }",
		"fill backwards":  "while(n>0) p[--n]=0;",
		"fill every 2nd":  "i=0; while(i<n){ p[i]=0; i=+2; }",
		"copy up":         "i=0; while(i<n){ p[i]=q[i]; i++; }",
		"copy down":       "while(n>0){ n--; p[n]=q[n]; }",
		"copy pointers":   "while(n--) *p++ = *q++;",
		"copy till zero":  "while(n-- > 0 & (*p++ = *q++) != 0) ;",
		"copy overlapped": "i=0; while(i<n){ p[i+1]=p[i]; i++; }",
		"move down":       "i=0; while(i<n){ p[i]=p[i+1]; i++; }",
		"length":          "i=0; while(q[i]) i++; k=i;",
		"compare":         "i=0; while(i<n){ if(p[i]!=q[i]) goto out; i++; } out: k=i;",
		"sum":             "i=k=0; while(i<n){ k=+q[i]; i++; }",
		"count bits":      "k=0; while(n){ k=+n&1; n=n>>1; }",
		"clear bits":      "k=0; while(n){ n=n&(n-1); k++; }",
		"power":           "k=1; while(n--) k=k*3;",
		"divide":          "i=n; k=0; while(i>=3){ i=-3; k++; }",
		"find":            "i=0; while(i<n & q[i]!=3) i++; k=i;",
		"switch table":    "switch(n){ case 0: k=10; goto e; case 1: k=11; goto e; case 2: k=12; goto e; case 3: k=15; goto e; case 7: k=9; goto e; case 30: k=2; } e:;",
	}
	var names []string
	for k := range body {
		names = append(names, k)
	}
	sort.Strings(names)
	for _, k := range names {
		for _, where := range []string{"v,w", "w,v", "v,v+8", "x#,v"} {
			add(k+" "+where, "x#[40]; m#(p,q,n,k){auto i;"+strings.ReplaceAll(body[k], "out", "out#")+"return(k);}p#(){extrn x#;auto v[40],w[40],i;i=0;while(i<40){v[i]=i*3;w[i]=99-i;x#[i]=i;i++;}v[37]=0;w[35]=0;t(m#("+where+",c(),5));i=0;while(i<40){t(v[i]*10000+w[i]*100+x#[i]);i++;}}", 1)
		}
	}
	for _, n := range []int{3, 8, 20, 40} {
		for _, val := range []string{"0", "-1", "n", "w[%d]", "%d"} {
			var s strings.Builder
			for i := 0; i < n; i++ {
				v := val
				if strings.Contains(v, "%d") {
					v = fmt.Sprintf(v, i)
				}
				fmt.Fprintf(&s, "v[%d]=%s;", i, v)
			}
			add(fmt.Sprintf("stores %d %s", n, val), "p#(){auto v[40],w[40],i,n;n=c();i=0;while(i<40){v[i]=i*3;w[i]=99-i;i++;}"+s.String()+"i=0;while(i<40){t(v[i]);i++;}}", 1)
			add(fmt.Sprintf("first stores %d %s", n, val), "p#(){auto v[40],w[40],n;n=c();w[n]=n;"+s.String()+"return(v[n%"+fmt.Sprint(n)+"]);}", 1)
		}
	}
	return
}

// p10endless: programs that never end, at every level: each is still running
// when its time is up, having written what it writes before its loop and
// nothing else. (A loop without effects may not be taken for one that ends.)
func (c *Ctx) p10endless() {
	pre := "main(){extrn g;auto x,y,v[3];x=1;y=2;g=3;v[0]=4;write('a');"
	loops := []string{"while(1);", "while(1){}", "while(x);", "while(g);", "while(1)x=x+1;", "while(1){x++;y=x*y;}", "while(x)y=y+x;", "while(1){v[0]=x;x=v[0];}", "while(1)g=g+1;",
		"while(1){if(x==y)y=x+1;x=x+1;}", "L:goto L;", "L:x++;goto L;", "L:if(x)goto L;", "L:;M:goto L;", "L:goto M;M:goto L;", "while(1)switch(x){case 0:;case 1:;}", "while(1)h(x);", "while(x==1)h(y);", "k();", "while(1){while(y)y=y-1;}", "while(1)while(1);",
		"x=x?5:6;while(x!=0)y=y*3;", "while(!0);", "while(-1);", "while(1==1);", "while(2);", "while(4294967296);", "while('*0'==0);", "while(x|1);", "while(&x);", "while(v);", "while(h);", "while(\"\");", "switch(x){case 1:while(1);}", "if(x)while(1);", "if(x){L:goto L;}else write('c');", "while(h(1)==1);", "while(x=1);", "while(x=+0);", "return(k());", "y=k();", "h(k());", "y=x?k():2;", "x=1|k();", "while(1)x=-x;", "while(y)y=y*3;", "while(1){x=x<<1;if(x==0)x=1;}"}
	post := "write('b');return(0);}"
	rest := "g;h(z){return(z);}k(){while(1);}"
	fresh := []string{
		"k(){L:goto L;}main(){write('a');k();write('b');}",
		"k(n){while(n)n=n|1;}main(){write('a');k(1);write('b');}",
		"main(){write('a');L:if(1)goto L;write('b');}",
		"k(p){while(*p==0);}g;main(){extrn g;write('a');k(&g);write('b');}",
		"main(){auto i;write('a');i=0;while(i>=0){i=i+1;if(i>5)i=0;}write('b');}",
		"main(){auto i;write('a');i=0;while(i!=1)i=i+2;write('b');}",
		"k(n){if(n==0)return(0);while(1);}main(){write('a');k(0);k(1);write('b');}",
	}
	for _, l := range loops {
		fresh = append(fresh, pre+l+post+rest)
	}
	Parallel(len(fresh)*4, func(j int) {
		if c.Stop() {
			return
		}
		i, lv := j/4, j%4
		dir := c.Temp()
		defer os.RemoveAll(dir)
		mustWrite(filepath.Join(dir, "prog.b"), []byte(fresh[i]))
		lvl := fmt.Sprintf("-O%d", lv)
		r := run(Cmd{Dir: dir, Env: c.env(), Args: limited(100, c.Blang, lvl, "-L", c.LibDir, "-o", "x", "prog.b"), Timeout: 200 * time.Second})
		if r.Code != 0 {
			c.Violation("endless:"+fresh[i], fmt.Sprintf("blang %s: status %d %s\n%s", lvl, r.Code, clip(r.Err), fresh[i]), map[string]string{"prog.b": fresh[i]})
			return
		}
		msg := ""
		for _, wait := range []time.Duration{150 * time.Millisecond, time.Second, 5 * time.Second} {
			r = run(Cmd{Dir: dir, Args: []string{filepath.Join(dir, "x")}, Timeout: wait})
			if r.Code == -3 && string(r.Out) == "a" {
				c.Traces.Add(1)
				return
			}
			msg = fmt.Sprintf("built with %s: status %d %s, output %q after %v (expected: \"a\" and never ending)\n%s", lvl, r.Code, r.Signal, clip(r.Out), wait, fresh[i])
			if string(r.Out) != "" && string(r.Out) != "a" {
				break
			}
		}
		c.Violation("endless:"+fresh[i], msg, map[string]string{"prog.b": fresh[i]})
	})
	c.Outcome("programs without an end", int64(len(fresh)*4))
	c.Phase("programs without an end")
}

// manyTexts: sources with one to forty of everything a translation lists.
func manyTexts() (texts []string) {
	for _, n := range []int{1, 2, 3, 4, 5, 6, 7, 8, 9, 10, 12, 16, 17, 24, 33, 40} {
		many := func(f func(i int) string) string {
			var s strings.Builder
			for i := 0; i < n; i++ {
				s.WriteString(f(i))
			}
			return s.String()
		}
		list := func(f string) string {
			return strings.TrimSuffix(many(func(i int) string { return strings.ReplaceAll(f, "#", fmt.Sprint(i)) + "," }), ",")
		}
		texts = append(texts,
			"f(){"+many(func(i int) string { return fmt.Sprintf("L%d:goto L%d;", i, (i*7+1)%n) })+"}",
			"f(){"+many(func(i int) string { return fmt.Sprintf("goto L%d;", n-1-i) })+many(func(i int) string { return fmt.Sprintf("L%d:;", i) })+"}",
			"f(x){switch(x){"+many(func(i int) string { return fmt.Sprintf("case %d:x=%d;", i*3, i) })+"}}",
			"f(x){"+many(func(i int) string { return fmt.Sprintf("switch(x){case %d:x=%d;case %d:;}", i*3, i, i) })+"}",
			many(func(i int) string { return fmt.Sprintf("g%d %d;v%d[3]1,\"s%d\";", i, i, i, i) })+"f(){extrn "+list("h#")+";h0=h0;}",
			many(func(i int) string { return fmt.Sprintf("f%d(){g%d(\"t%d\");}", i, i, i%7) }),
			"f(){auto "+list("a#")+";"+many(func(i int) string { return fmt.Sprintf("u%d(a%d,\"t%d\");", i, i, i%7) })+"}",
			"f(){auto "+list("a#[3]")+";}", "f(){auto "+list("a#,v#[2]")+";}", "f("+list("p#")+"){auto "+list("a#")+";a0=p0;}",
			"f(){"+many(func(i int) string { return fmt.Sprintf("auto a%d;extrn e%d;a%d=e%d;", i, i, i, i) })+"}",
			"f(){extrn "+list("e#")+";"+many(func(i int) string { return fmt.Sprintf("e%d=%d;", i, i) })+"}", "f(){g("+list("\"s#\"")+");}", "f(){g("+list("h#(#)")+");}", "f(){"+many(func(i int) string { return fmt.Sprintf("h%d();", i) })+"}",
			"v["+fmt.Sprint(n)+"]"+list("#")+";", "v "+list("\"s#\"")+";", "f(x){"+many(func(i int) string { return fmt.Sprintf("if(x>%d)x=%d;else while(x)x=x-%d;", i, i, i+1) })+"}", "f(x){x="+many(func(i int) string { return fmt.Sprintf("x>%d?%d:", i, i) })+"0;}")
	}
	return
}

// sameEachTime: every text gives the same code (or the same diagnostic) each time.
func (c *Ctx) sameEachTime(pool *Pool, texts []string, reps int) {
	det := make([]map[string]bool, len(texts))
	Parallel(len(texts), func(i int) {
		det[i] = map[string]bool{}
		for k := 0; k < reps && !c.Stop(); k++ {
			v := pool.One(Req{Mode: 'C', FailAt: -1, Files: [][]byte{[]byte(texts[i])}})
			det[i][string(v.St)+v.Out] = true
			if k%4 == 0 {
				r := c.realRun([]byte(texts[i]))
				if r.Code == 0 {
					det[i]["A"+string(r.Out)] = true
				}
			}
			c.Traces.Add(1)
		}
	})
	for i := range texts {
		if len(det[i]) > 1 && !c.Stop() {
			// again with the real command
			outs := map[string]bool{}
			for k := 0; k < 60; k++ {
				r := c.realRun([]byte(texts[i]))
				outs[fmt.Sprint(r.Code)+string(r.Out)+string(r.Err)] = true
			}
			if len(outs) > 1 {
				c.Violation("repeat", fmt.Sprintf("compiling the same file 60 times gave %d different results\n%s", len(outs), clip([]byte(texts[i]))), map[string]string{"prog.b": texts[i]})
				return
			}
		}
	}
}
