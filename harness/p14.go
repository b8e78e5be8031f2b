package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() { checks["P14"] = checkP14 }

// p14part is one file of a distribution: the definitions it holds (indices into
// the unit's order) and the kind of input it becomes.
type p14part struct {
	items []int
	kind  string // ".b", ".ll", ".s", ".o", ".a"
}

type p14set struct {
	name  string
	cases []*Case
	n     int // definitions per program
}

// itemText renders definition k (globals first) of a unit.
func itemText(u *Unit, k int, sp Spacing) string {
	v := &Unit{}
	if k < len(u.Globs) {
		v.Globs = []*Glob{u.Globs[k]}
	} else {
		v.Funcs = []*Func{u.Funcs[k-len(u.Globs)]}
	}
	return v.Text(sp)
}

func p14programs(c *Ctx) []*p14set {
	n, v := Num, V
	str := func(s string) Init { return Init{Src: "\"" + s + "\"", Str: []byte(s), IsStr: true} }
	kinds := []Glob{
		{Size: -1}, {Size: -1, Inits: []Init{numInit(5)}}, {Size: -1, Inits: []Init{numInit(-1), numInit(2), numInit(3)}}, {Size: -1, Inits: []Init{str("one")}},
		{Vec: true, Size: 3}, {Vec: true, Size: 3, Inits: []Init{numInit(7), numInit(8)}}, {Vec: true, Size: -1, Inits: []Init{numInit(1), str("two"), numInit(4)}}, {Vec: true, Size: 1}, {Vec: true, Size: 40}, {Vec: true, Size: 40, Inits: []Init{numInit(9)}},
		{Name: "none"}, // named by extrn only, defined nowhere
	}
	words := func(g Glob) int64 {
		if g.Vec {
			return min(4, max(1, g.Size, int64(len(g.Inits))))
		}
		return max(1, int64(len(g.Inits)))
	}
	// cell i of a global; strings are looked at through their first byte
	get := func(name string, g Glob, i int64) *Expr {
		if g.Vec {
			return Idx(v(name), n(i))
		}
		if i == 0 {
			return v(name)
		}
		return Idx(Paren(Addr(v(name))), n(i))
	}
	see := func(name string, g Glob, i int64) *Expr {
		if int(i) < len(g.Inits) && g.Inits[i].IsStr {
			return Call("b", get(name, g, i), n(1))
		}
		return get(name, g, i)
	}
	isNum := func(g Glob, i int64) bool { return int(i) >= len(g.Inits) || !g.Inits[i].IsStr }
	var sets []*p14set
	vars := &p14set{name: "variables", n: 5}
	for i := range kinds {
		for j := range kinds {
			if kinds[i].Name == "none" && kinds[j].Name == "none" {
				continue
			}
			if !c.Thorough() && (i*3+j)%2 == 1 && i != j {
				continue
			}
			g, h := kinds[i], kinds[j]
			gn, hn := g.Name == "none", h.Name == "none"
			g.Name, h.Name = "g#", "h#"
			if gn {
				g.Size = -1
			}
			if hn {
				h.Size = -1
			}
			dump := func() (l []*Stmt) {
				a := []*Expr{}
				for k := int64(0); k < words(g); k++ {
					a = append(a, see("g#", g, k))
				}
				for k := int64(0); k < words(h); k++ {
					a = append(a, see("h#", h, k))
				}
				return []*Stmt{Ex(Call("n", append([]*Expr{n(int64(len(a)))}, a...)...))}
			}
			change := func(d int64) (l []*Stmt) {
				for k := int64(0); k < words(g); k++ {
					if isNum(g, k) {
						l = append(l, set(get("g#", g, k), Bin("+", get("g#", g, k), n(d+k))))
					}
				}
				for k := int64(0); k < words(h); k++ {
					if isNum(h, k) {
						l = append(l, Ex(Asg("*", get("h#", h, k), n(3))), Ex(Inc(KPostInc, get("h#", h, k))))
					}
				}
				return
			}
			ex := Extrn("g#", "h#")
			rx := Extrn("h#", "g#")
			w := fn("w#", []string{"a"}, append(append([]*Stmt{ex}, change(10)...), Return(Bin("+", v("a"), n(1))))...)
			r := fn("r#", nil, append(append([]*Stmt{rx}, dump()...), change(100)...)...)
			body := []*Stmt{ex, Auto(Decl{Name: "x"})}
			body = append(body, dump()...)
			body = append(body, tcall(Call("w#", n(41))))
			body = append(body, dump()...)
			body = append(body, Ex(Call("r#")), set(v("x"), v("w#")), tcall(Call("x", n(1))))
			body = append(body, dump()...)
			body = append(body, Return(n(3)))
			u := &Unit{Funcs: []*Func{w, r, fn("p#", nil, body...)}}
			if !gn {
				gg := g
				u.Globs = append(u.Globs, &gg)
			}
			if !hn {
				hh := h
				u.Globs = append(u.Globs, &hh)
			}
			m := u
			if gn || hn { // the machine needs the shared cell
				mm := &Unit{Funcs: u.Funcs, Globs: append([]*Glob{}, u.Globs...)}
				nn := "g#"
				if hn {
					nn = "h#"
				}
				mm.Globs = append(mm.Globs, &Glob{Name: nn, Size: -1})
				m = mm
			}
			cs := prog(fmt.Sprintf("variables:%d,%d", i, j), m, Tight, []int64{0}, 0)
			cs.Unit = m
			cs.explore()
			if len(cs.runs) == 0 {
				continue
			}
			cs.Unit = u
			if gn || hn {
				if sets == nil || sets[len(sets)-1].name != "extrn only" {
					sets = append(sets, &p14set{name: "extrn only", n: 4})
				}
				s := sets[len(sets)-1]
				s.cases = append(s.cases, cs)
				continue
			}
			vars.cases = append(vars.cases, cs)
		}
	}
	sets = append(sets, vars)
	// functions that call each other directly, through addresses and recursively;
	// the same strings, labels, autos and parameters in each
	fns := &p14set{name: "functions", n: 5}
	addF := func(key string, fs ...*Func) {
		u := &Unit{Funcs: fs}
		cs := prog("functions:"+key, u, Tight, []int64{0}, 0)
		cs.explore()
		if len(cs.runs) > 0 && len(fs) == 5 {
			fns.cases = append(fns.cases, cs)
		}
	}
	x, y := v("x"), v("y")
	// a function hands out its own address: a name of another file has no
	// value other than through a call
	self := func(nm string) *Stmt { return If(Bin("<", v("x"), n(0)), Return(v(nm)), nil) }
	m1 := Bin("-", n(0), n(1))
	addF("even-odd",
		fn("e#", []string{"x"}, self("e#"), If(Bin("==", x, n(0)), Return(n(1)), nil), Return(Call("d#", Bin("-", x, n(1))))),
		fn("d#", []string{"x"}, self("d#"), If(Bin("==", x, n(0)), Return(n(0)), nil), Return(Call("e#", Bin("-", x, n(1))))),
		fn("k#", []string{"x", "y"}, Return(CallE(x, y))),
		fn("q#", []string{"x"}, tcall(Call("k#", Call("e#", m1), x)), tcall(Call("k#", Call("d#", m1), x)), Return(Bin("==", Call("e#", m1), Call("d#", m1)))),
		fn("p#", nil, tcall(Call("q#", n(4))), tcall(Call("q#", n(7))), Return(Bin("==", Call("e#", m1), Call("e#", m1)))))
	lab := func(nm string, k int64, callee string) *Func {
		return fn(nm, []string{"x"}, Auto(Decl{Name: "y"}), Label("L", set(y, Bin("+", y, n(k)))), If(Bin("<", y, x), Goto("L"), nil), tcall(y),
			If(Bin(">", x, n(0)), tcall(Call(callee, Bin("-", x, n(k)))), nil), Switch(y, Block(CaseS(k, Return(n(k*100))), CaseS(2*k, Return(n(k*200))))), Return(y))
	}
	addF("same names", lab("e#", 1, "d#"), lab("d#", 2, "k#"), lab("k#", 3, "q#"), lab("q#", 4, "e#"), fn("p#", nil, Return(Call("e#", n(9)))))
	addF("argument counts",
		fn("e#", nil, Return(n(5))),
		fn("d#", []string{"a"}, Return(Bin("*", v("a"), n(2)))),
		fn("k#", []string{"a", "b", "x", "y", "z", "u", "w", "o2"}, Return(Call("n", n(8), v("a"), v("b"), x, y, v("z"), v("u"), v("w"), v("o2")))),
		fn("q#", []string{"a", "b", "x"}, Return(Bin("-", v("a"), Bin("-", v("b"), x)))),
		fn("p#", nil, tcall(Call("e#", n(1), n(2))), tcall(Call("d#", n(4), n(6))), tcall(Call("k#", n(1), n(2), n(3), n(4), n(5), n(6), n(7), n(8))), tcall(Call("q#", Call("e#"), Call("d#", n(3)), n(9))), Return(n(0))))
	vt := func(nm string, k int64) *Func {
		return fn(nm, []string{"a"}, If(Bin("<", v("a"), n(0)), Return(v(nm)), nil), tcall(Bin("+", v("a"), n(k))), Return(n(k)))
	}
	addF("table of functions", vt("e#", 1), vt("d#", 2), vt("k#", 3), vt("q#", 4),
		fn("p#", nil, Auto(Decl{Name: "w", Vec: true, Size: 4, Src: "4"}, Decl{Name: "i"}), set(Idx(v("w"), n(0)), Call("q#", m1)), set(Idx(v("w"), n(1)), Call("k#", m1)), set(Idx(v("w"), n(2)), Call("d#", m1)), set(Idx(v("w"), n(3)), Call("e#", m1)),
			While(Bin("<", v("i"), n(4)), Block(tcall(CallE(Idx(v("w"), v("i")), v("i"))), Ex(Inc(KPostInc, v("i"))))), Return(v("i"))))
	sets = append(sets, fns)
	return append(sets, p14spelling()...)
}

// orderedPartitions yields every division of 0..n-1 into an ordered list of
// non-empty groups.
func orderedPartitions(n int, yield func([][]int)) {
	var rec func(rest []int, acc [][]int)
	rec = func(rest []int, acc [][]int) {
		if len(rest) == 0 {
			yield(append([][]int(nil), acc...))
			return
		}
		for m := 1; m < 1<<len(rest); m++ {
			var g, o []int
			for i, x := range rest {
				if m>>i&1 == 1 {
					g = append(g, x)
				} else {
					o = append(o, x)
				}
			}
			rec(o, append(acc, g))
		}
	}
	var all []int
	for i := 0; i < n; i++ {
		all = append(all, i)
	}
	rec(all, nil)
}

func checkP14(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "states: nodes of the reference machine over the programs times the ways to distribute them; every program is divided in every ordered partition of its definitions into files, and for partitions into three files every product of input kinds (source, intermediate code, assembly, object, and archive in last place) in every order; every distribution is compiled and linked by the command and the model's run replayed in the executable"
	c.Assumptions = []string{"archives are named after the files that need them, as the system linker requires"}
	home := mkdir(filepath.Join(c.Scratch, "home"))
	mkdir(filepath.Join(home, ".local/lib"))
	if r := run(Cmd{Args: []string{"cp", filepath.Join(c.LibDir, "libb.a"), filepath.Join(home, ".local/lib/libb.a")}}); r.Code != 0 {
		fatal("cp: %s", r.Err)
	}
	env := append(c.env(), "HOME="+home)
	fdrv := filepath.Join(c.Scratch, "fdrv.o")
	if r := run(Cmd{Args: []string{"clang", "-O1", "-ffreestanding", "-fno-stack-protector", "-fno-pic", "-w", "-c", "-o", fdrv, filepath.Join(c.Root, "cdrv/fdrv.c")}}); r.Code != 0 {
		fatal("fdrv: %s", r.Err)
	}
	sets := p14programs(c)
	br := &batchRunner{c: c}
	type env14 struct {
		s     *p14set
		cases []*Case
		dir   string
		n     int
		mu    sync.Mutex
		objs  map[string]*sync.Once
		msgs  map[string]string
	}
	prep := func(s *p14set, cases []*Case) *env14 {
		e := &env14{s: s, cases: cases, dir: c.Temp(), objs: map[string]*sync.Once{}, msgs: map[string]string{}}
		var t bytes.Buffer
		t.WriteString(".globl bbss_lo\n.bss\n.balign 64\nbbss_lo:\n.zero 64\n.data\n.globl vtab, bdata_lo\n.balign 64\nvtab:\n")
		for i, cs := range cases {
			fmt.Fprintf(&t, ".quad \"b.%s\"\n", strings.ReplaceAll(cs.Entry, "#", strconv.Itoa(i)))
		}
		t.WriteString(".section .rodata\n.globl runs_data\n.balign 64\nruns_data:\n.incbin \"" + filepath.Join(e.dir, "runs") + "\"\n")
		t.WriteString(".data\n.balign 64\nbdata_lo:\n.section .note.GNU-stack,\"\",@progbits\n")
		mustWrite(filepath.Join(e.dir, "tab.s"), t.Bytes())
		mustWrite(filepath.Join(e.dir, "end.s"), []byte(".data\n.globl bdata_hi\n.balign 64\nbdata_hi:\n.section .note.GNU-stack,\"\",@progbits\n"))
		mustWrite(filepath.Join(e.dir, "main.b"), []byte("main(){return(xrun());}\n"))
		e.n = br.runsFile(filepath.Join(e.dir, "runs"), cases)
		for _, f := range []string{"tab", "end"} {
			if r := run(Cmd{Dir: e.dir, Args: []string{"clang", "-c", "-o", f + ".o", f + ".s"}}); r.Code != 0 {
				fatal("tables: %s", r.Err)
			}
		}
		if r := run(Cmd{Dir: e.dir, Env: env, Args: []string{c.Blang, "-c", "-o", "main.o", "main.b"}}); r.Code != 0 {
			e.msgs["main"] = string(r.Err)
		}
		return e
	}
	text := func(e *env14, items []int) string {
		var b strings.Builder
		for i, cs := range e.cases {
			for _, k := range items {
				b.WriteString(strings.ReplaceAll(itemText(cs.Unit, k, Tight), "#", strconv.Itoa(i)))
			}
		}
		return b.String()
	}
	// part makes (once) the input file for a group of definitions
	part := func(e *env14, p p14part, level int) (string, string) {
		base := ""
		for _, k := range p.items {
			base += string(rune('a' + k))
		}
		base += strconv.Itoa(level)
		key := base + p.kind
		e.mu.Lock()
		o := e.objs[key]
		if o == nil {
			o = &sync.Once{}
			e.objs[key] = o
		}
		e.mu.Unlock()
		file := filepath.Join(e.dir, key)
		o.Do(func() {
			src := filepath.Join(e.dir, fmt.Sprintf("%s%s.src.b", base, p.kind[1:]))
			fail := func(r Result) {
				e.mu.Lock()
				e.msgs[key] = fmt.Sprintf("compiling %s failed: %s\n%s", key, clip(r.Err), clip([]byte(text(e, p.items))))
				e.mu.Unlock()
			}
			lv := "-O" + strconv.Itoa(level)
			if p.kind == ".b" {
				mustWrite(file, []byte(text(e, p.items)))
				return
			}
			mustWrite(src, []byte(text(e, p.items)))
			flag, out := "-c", file
			switch p.kind {
			case ".ll":
				flag = "--emit-llvm"
			case ".s":
				flag = "-S"
			case ".a":
				out = filepath.Join(e.dir, base+".a.o")
			}
			r := run(Cmd{Dir: e.dir, Env: env, Args: limited(200, c.Blang, flag, lv, "-o", out, src), Timeout: 300 * time.Second})
			if r.Code != 0 {
				fail(r)
				return
			}
			if p.kind == ".a" {
				if r := run(Cmd{Dir: e.dir, Args: []string{"ar", "crs", file, out}}); r.Code != 0 {
					fail(r)
				}
			}
		})
		e.mu.Lock()
		defer e.mu.Unlock()
		return file, e.msgs[key]
	}
	var seq atomic.Int64
	try := func(e *env14, parts []p14part, level int) string {
		if m := e.msgs["main"]; m != "" {
			return m
		}
		dir := mkdir(filepath.Join(e.dir, fmt.Sprintf("x%d", seq.Add(1))))
		defer os.RemoveAll(dir)
		args := []string{c.Blang, "-O" + strconv.Itoa(level), "-o", "x", fdrv, filepath.Join(e.dir, "tab.o"), filepath.Join(e.dir, "main.o")}
		for _, p := range parts {
			f, m := part(e, p, level)
			if m != "" {
				return m
			}
			args = append(args, f)
		}
		args = append(args, filepath.Join(e.dir, "end.o"))
		r := run(Cmd{Dir: dir, Env: env, Args: limited(200, args...), Timeout: 300 * time.Second})
		if r.Code != 0 {
			// why: ask the tool chain itself
			return fmt.Sprintf("linking failed: status %d %s", r.Code, clip(r.Err))
		}
		r = run(Cmd{Dir: dir, Args: limited(50, filepath.Join(dir, "x")), Timeout: 200 * time.Second})
		if r.Code == 7 && string(r.Out) == fmt.Sprintf("DONE %d\n", e.n) && len(r.Err) == 0 {
			return ""
		}
		return fmt.Sprintf("status %d %s, output %q", r.Code, r.Signal, clip(r.Out))
	}
	var links atomic.Int64
	doAll := func(name string, s *p14set, cases []*Case, lists [][]p14part, levels []int) {
		if len(cases) == 0 {
			return
		}
		for _, lv := range levels {
			e := prep(s, cases)
			Parallel(len(lists), func(i int) {
				if c.Stop() {
					return
				}
				links.Add(1)
				c.States.Add(int64(len(cases)) * int64(1+len(lists[i])))
				c.Transitions.Add(int64(len(cases)) * int64(len(lists[i])))
				c.Traces.Add(int64(len(cases)))
				m := try(e, lists[i], lv)
				if m == "" {
					return
				}
				cur := cases
				fails := func(cs []*Case) string {
					e2 := prep(s, cs)
					defer os.RemoveAll(e2.dir)
					return try(e2, lists[i], lv)
				}
				for len(cur) > 1 {
					h := len(cur) / 2
					if fails(cur[:h]) != "" {
						cur = cur[:h]
					} else if fails(cur[h:]) != "" {
						cur = cur[h:]
					} else {
						break
					}
				}
				for k := 0; k < 3; k++ {
					if m = fails(cur); m == "" {
						return
					}
				}
				e2 := prep(s, cur)
				files := map[string]string{}
				var show strings.Builder
				for k, p := range lists[i] {
					t := text(e2, p.items)
					files[fmt.Sprintf("file%d.b", k+1)] = t
					fmt.Fprintf(&show, "file %d (given as %s):\n%s", k+1, p.kind, clip([]byte(t)))
				}
				c.Violation("split:"+cur[0].Key, fmt.Sprintf("program divided into %d files, -O%d: %s\n%s", len(lists[i]), lv, m, show.String()), files)
			})
			os.RemoveAll(e.dir)
		}
		c.Phase(name)
	}
	reverse := func(l []int) []int {
		var r []int
		for i := len(l) - 1; i >= 0; i-- {
			r = append(r, l[i])
		}
		return r
	}
	for _, s := range sets {
		var objs, srcs, mixed [][]p14part
		orderedPartitions(s.n, func(g [][]int) {
			var a, b, d []p14part
			for _, it := range g {
				a = append(a, p14part{it, ".o"})
				b = append(b, p14part{reverse(it), ".o"})
				d = append(d, p14part{it, ".b"})
			}
			objs = append(objs, a)
			objs = append(objs, b)
			if len(g) <= 2 || len(g) == s.n && (c.Thorough() || g[0][0] < 2) || c.Thorough() {
				srcs = append(srcs, d)
			}
			if len(g) == 3 && (c.Thorough() || len(g[0]) <= 2 && len(g[1]) <= 2 && g[0][0] == 0) {
				kinds := []string{".b", ".ll", ".s", ".o"}
				for x := 0; x < 64; x++ {
					if !c.Thorough() && (x+len(mixed))%3 != 0 {
						continue
					}
					mixed = append(mixed, []p14part{{g[0], kinds[x&3]}, {g[1], kinds[x>>2&3]}, {g[2], kinds[x>>4&3]}})
				}
			}
			if len(g) >= 2 && len(g) <= 3 {
				// an archive in last place
				for _, k := range []string{".b", ".o"} {
					l := []p14part{}
					for i, it := range g {
						kk := ".a"
						if i == 0 || i < len(g)-1 {
							kk = k
						}
						l = append(l, p14part{it, kk})
					}
					mixed = append(mixed, l)
				}
			}
		})
		few := s.cases
		if len(few) > 6 {
			few = nil
			for i := 0; i < len(s.cases); i += len(s.cases)/5 + 1 {
				few = append(few, s.cases[i])
			}
		}
		doAll(s.name+": objects", s, s.cases, objs, Pick(c, []int{0}, []int{0, 1, 2, 3}))
		doAll(s.name+": sources", s, Pick(c, few, s.cases), srcs, Pick(c, []int{2}, []int{0, 2}))
		doAll(s.name+": mixed kinds", s, few, mixed, Pick(c, []int{1}, []int{0, 2}))
		c.Outcome("programs", int64(len(s.cases)))
		for i := 0; i < len(s.cases); i += len(s.cases)/2 + 1 {
			var t []string
			for k := 0; k < s.n; k++ {
				t = append(t, strings.ReplaceAll(itemText(s.cases[i].Unit, k, Tight), "#", "0"))
			}
			c.Sample(map[string]any{"definitions": t})
		}
	}
	c.p14routines(env)
	c.Outcome("links", links.Load())
	c.Extra["bounds"] = map[string]any{"definitions per program": 5, "files": 5}
}
