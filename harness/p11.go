package main

import (
	"bytes"
	"fmt"
	"hash/fnv"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"sync"
	"time"
)

func init() { checks["P11"] = checkP11 }

// The inputs a command line can name.
type p11in struct {
	name string
	body string // "" with kind 'm' or 'd'
	kind byte   // 'b' good source, 'e' source with an error, 'o' other input, 'x' extension not allowed, 'm' missing, 'd' directory
}

var p11inputs = []p11in{
	{"a.b", "main(){extrn v;v=1;return(f(v));}\n", 'b'},
	{"sub/c.b", "f(x){return(x+41);}\n", 'b'},
	{"n.m.b", "g 3;h(){extrn g;return(g);}\n", 'b'},
	{"bad.b", "main(){x=;}\n", 'e'},
	{"x.ll", "; a module\n", 'o'},
	{"sub/y.s", "# assembly\n", 'o'},
	{"z.o", "object z\n", 'o'},
	{"w.a", "archive w\n", 'o'},
	{"q.c", "int x;\n", 'x'},
	{"gone.b", "", 'm'},
	{"dir.b", "", 'd'},
}

// p11cfg is one command line in one environment.
type p11cfg struct {
	mode  string // "", "-c", "-S", "--emit-llvm"
	out   string
	opt   []string
	level int // -1: not valid
	g     bool
	save  bool
	verb  bool
	L, l  []string
	form  int // spelling and place of the options
	in    []int
	fail  int    // number of the tool chain run that fails
	how   string // "exit", "signal", "absent"
	stale bool   // files of the output's names exist before
	home  bool   // $HOME/.local/lib exists
}

func (g *p11cfg) args() []string {
	var o []string
	long := g.form&1 != 0
	add := func(s, l string, v string) {
		switch {
		case v == "" && long:
			o = append(o, l)
		case v == "":
			o = append(o, s)
		case long:
			o = append(o, l+"="+v)
		case g.form&2 != 0 && s != "-o":
			o = append(o, s+v)
		default:
			o = append(o, s, v)
		}
	}
	switch g.mode {
	case "-c":
		add("-c", "--compile", "")
	case "-S":
		add("-S", "--assemble", "")
	case "--emit-llvm":
		o = append(o, "--emit-llvm")
	}
	if g.g {
		add("-g", "--debug", "")
	}
	for _, v := range g.opt {
		add("-O", "--optimize", v)
	}
	if g.verb {
		add("-v", "--verbose", "")
	}
	if g.save {
		o = append(o, "--save-temps")
	}
	for _, v := range g.L {
		add("-L", "--library-dir", v)
	}
	for _, v := range g.l {
		add("-l", "--library", v)
	}
	if g.out != "" {
		add("-o", "--output", g.out)
	}
	var in []string
	for _, i := range g.in {
		in = append(in, p11inputs[i].name)
	}
	switch {
	case g.form&4 != 0:
		return append(in, o...)
	case g.form&8 != 0 && len(in) > 1:
		return append(append(append([]string{}, in[0]), o...), in[1:]...)
	}
	return append(o, in...)
}

// p11want is what the documentation prescribes for a configuration.
type p11want struct {
	ok    bool
	calls []string          // tool chain runs, normalized
	files map[string]string // files that appear: name -> content ("FAKE n": of that run; "IR:name")
	maybe map[string]bool   // files that may appear or change as well
	steps int
}

func stem(p string) string {
	b := filepath.Base(p)
	return strings.TrimSuffix(b, filepath.Ext(b))
}

// predict is the reference model of the command.
func (g *p11cfg) predict(ir map[string]string, libs []string) p11want {
	w := p11want{files: map[string]string{}, maybe: map[string]bool{}}
	if g.level < 0 || len(g.in) == 0 {
		return w
	}
	w.steps = 1
	suffix := map[string]string{"-c": ".o", "-S": ".s", "--emit-llvm": ".ll", "": ""}[g.mode]
	for _, i := range g.in {
		in := p11inputs[i]
		ext := filepath.Ext(in.name)
		bad := in.kind == 'x' || in.kind == 'm'
		switch g.mode {
		case "--emit-llvm":
			bad = bad || ext != ".b"
		case "-S":
			bad = bad || ext != ".b" && ext != ".ll"
		case "-c":
			bad = bad || ext != ".b" && ext != ".ll" && ext != ".s"
		}
		if bad {
			// which of the other inputs were handled before is not prescribed
			for _, k := range g.in {
				w.maybe[stem(p11inputs[k].name)+suffix] = true
			}
			return w
		}
	}
	if g.mode != "" && g.out != "" && len(g.in) != 1 {
		return w
	}
	flags := fmt.Sprintf("O%d g%v", g.level, g.g)
	hash := func(s string) string {
		h := fnv.New64a()
		h.Write([]byte(s))
		return fmt.Sprintf("%016x", h.Sum64())
	}
	content := func(i int) string {
		in := p11inputs[i]
		if in.kind == 'b' {
			return "ir " + hash(ir[in.name])
		}
		return in.name + " " + hash(in.body)
	}
	call := func(s string) bool {
		if g.how == "absent" {
			return false
		}
		w.calls = append(w.calls, s)
		w.steps++
		return !(g.fail > 0 && len(w.calls) == g.fail)
	}
	if g.mode == "" {
		out := g.out
		if out == "" {
			out = stem(p11inputs[g.in[0]].name)
		}
		var parts []string
		temps := map[string]string{}
		for k, i := range g.in {
			in := p11inputs[i]
			w.steps++
			if in.kind == 'e' || in.kind == 'd' {
				if g.save {
					for t := range temps {
						w.maybe[t] = true
					}
					w.maybe["bad.tmp.ll"] = true
				}
				return w
			}
			if in.kind == 'b' {
				t := fmt.Sprintf("%s.tmp.%d.ll", out, k)
				if len(g.in) == 1 {
					t = out + ".tmp.ll"
				}
				temps[t] = "IR:" + in.name
			}
			parts = append(parts, content(i))
		}
		var l []string
		for _, x := range append(append([]string{}, libs...), g.L...) {
			l = append(l, "-L"+x)
		}
		lib := []string{"b"}
		lib = append(lib, g.l...)
		ok := call(fmt.Sprintf("link %s static=true nostdlib=true in=%s lib=%s dirs=%s out=%s", flags, strings.Join(parts, ","), strings.Join(lib, ","), strings.Join(l, ","), out))
		if !ok {
			if g.save {
				for t := range temps {
					w.maybe[t] = true
				}
			}
			return w
		}
		w.ok = true
		w.files[out] = fmt.Sprintf("FAKE %d\n", len(w.calls))
		if g.save {
			for t, s := range temps {
				w.files[t] = s
			}
		}
		return w
	}
	for _, i := range g.in {
		in := p11inputs[i]
		out := g.out
		if out == "" {
			out = stem(in.name) + suffix
		}
		w.steps++
		temp := out + ".tmp.ll"
		if in.kind == 'e' || in.kind == 'd' {
			// later inputs may or may not be handled
			return p11rest(w, g, suffix)
		}
		if g.mode == "--emit-llvm" {
			w.files[out] = "IR:" + in.name
			continue
		}
		if !call(fmt.Sprintf("%s %s in=%s out=%s", g.mode, flags, content(i), out)) {
			if g.save && in.kind == 'b' {
				w.maybe[temp] = true
			}
			return p11rest(w, g, suffix)
		}
		w.files[out] = fmt.Sprintf("FAKE %d\n", len(w.calls))
		if g.save && in.kind == 'b' {
			w.files[temp] = "IR:" + in.name
		}
	}
	w.ok = true
	return w
}

func p11rest(w p11want, g *p11cfg, suffix string) p11want { return w }

// p11norm brings a recorded run of the tool chain into the form of the model.
func p11norm(line string, ir map[string]string) string {
	f := strings.Split(strings.TrimSuffix(line, "\t"), "\t")
	mode, out, level, dbg, static, nostd := "link", "a.out", "0", false, false, false
	var ins, lib, dirs []string
	libBefore := false
	for k := 0; k < len(f); k++ {
		a := f[k]
		switch {
		case a == "-c" || a == "-S":
			mode = a
		case a == "-o" && k+1 < len(f):
			k++
			out = filepath.Clean(f[k])
		case strings.HasPrefix(a, "-O"):
			level = strings.TrimPrefix(a, "-O")
		case a == "-g":
			dbg = true
		case a == "-static":
			static = true
		case a == "-nostdlib":
			nostd = true
		case strings.HasPrefix(a, "-L"):
			dirs = append(dirs, a)
		case strings.HasPrefix(a, "-l"):
			lib = append(lib, a[2:])
		case strings.HasPrefix(a, "-"):
			// other options are not prescribed
		default:
			if len(lib) > 0 {
				libBefore = true
			}
			a = filepath.Clean(a)
			h := "?"
			if k+1 < len(f) && strings.HasPrefix(f[k+1], "#") {
				k++
				h = f[k][1:]
			}
			n := "ir"
			for _, in := range p11inputs {
				if in.name == a {
					n = a
				}
			}
			ins = append(ins, n+" "+h)
		}
	}
	s := fmt.Sprintf("%s O%s g%v", mode, level, dbg)
	if mode == "link" {
		s += fmt.Sprintf(" static=%v nostdlib=%v", static, nostd)
	}
	s += " in=" + strings.Join(ins, ",")
	if libBefore {
		s += " (libraries before inputs)"
	}
	if mode == "link" {
		s += fmt.Sprintf(" lib=%s dirs=%s", strings.Join(lib, ","), strings.Join(dirs, ","))
	}
	return s + " out=" + out
}

// run executes one configuration; the answer is "" or what went wrong.
func (c *Ctx) p11run(g *p11cfg, ir map[string]string, tool string) string {
	dir := c.Temp()
	defer os.RemoveAll(dir)
	cwd := mkdir(filepath.Join(dir, "w"))
	mkdir(filepath.Join(cwd, "sub"))
	mkdir(filepath.Join(cwd, "od"))
	home := mkdir(filepath.Join(dir, "h"))
	var libs []string
	if g.home {
		libs = append(libs, mkdir(filepath.Join(home, ".local/lib")))
	}
	for _, d := range []string{"/opt/homebrew/lib", "/opt/local/lib", "/usr/local/lib", "/usr/lib"} {
		if fi, err := os.Stat(d); err == nil && fi.IsDir() {
			libs = append(libs, d)
		}
	}
	w := g.predict(ir, libs)
	before := map[string]string{}
	for _, i := range g.in {
		in := p11inputs[i]
		switch in.kind {
		case 'm':
		case 'd':
			mkdir(filepath.Join(cwd, in.name))
		default:
			mustWrite(filepath.Join(cwd, in.name), []byte(in.body))
			before[in.name] = in.body
		}
	}
	if g.stale {
		for f := range w.files {
			if _, ok := before[f]; !ok {
				mustWrite(filepath.Join(cwd, f), []byte("stale "+f+strings.Repeat("x", 70000)))
				before[f] = "stale " + f + strings.Repeat("x", 70000)
			}
		}
	}
	log := filepath.Join(dir, "log")
	path := tool
	if g.how == "absent" {
		path = home
	}
	env := []string{"PATH=" + path, "HOME=" + home, "LANG=C.UTF-8", "FCLANG_LOG=" + log, "FCLANG_HOW=" + g.how, fmt.Sprintf("FCLANG_FAIL=%d", g.fail), "TMPDIR=" + dir}
	r := run(Cmd{Dir: cwd, Env: env, Args: append([]string{c.Blang}, g.args()...), Timeout: 120 * time.Second})
	if r.Code == -3 || r.Code == -2 {
		return ""
	}
	after := map[string]string{}
	filepath.Walk(cwd, func(p string, fi os.FileInfo, err error) error {
		if err == nil && !fi.IsDir() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(cwd, p)
			after[rel] = string(b)
		}
		return nil
	})
	var calls []string
	if b, err := os.ReadFile(log); err == nil {
		for _, l := range bytes.Split(bytes.TrimSuffix(b, []byte("\n")), []byte("\n")) {
			calls = append(calls, p11norm(string(l), ir))
		}
	}
	var errs []string
	bad := func(f string, a ...any) { errs = append(errs, fmt.Sprintf(f, a...)) }
	if w.ok != (r.Code == 0) {
		bad("exit status %d, expected success: %v; standard error: %s", r.Code, w.ok, clip(r.Err))
	}
	if r.Code < 0 || r.Code > 127 {
		bad("ended abnormally: status %d %s", r.Code, r.Signal)
	}
	if w.ok && !g.verb && len(r.Out) > 0 {
		bad("unexpected standard output: %s", clip(r.Out))
	}
	if !w.ok && len(bytes.TrimSpace(r.Err)) == 0 && (len(g.args()) > 0 || len(bytes.TrimSpace(r.Out)) == 0) {
		bad("failed without a message on standard error")
	}
	for _, i := range g.in {
		if in := p11inputs[i]; before[in.name] != "" && after[in.name] != in.body {
			bad("input %s was changed or removed", in.name)
		}
	}
	if w.ok {
		if fmt.Sprint(calls) != fmt.Sprint(w.calls) {
			bad("tool chain runs:\n  %s\nexpected:\n  %s", strings.Join(calls, "\n  "), strings.Join(w.calls, "\n  "))
		}
	} else {
		for k, s := range calls {
			if k < len(w.calls) && s != w.calls[k] || k >= len(w.calls) && len(w.maybe) == 0 && g.mode == "" {
				bad("unexpected run of the tool chain: %s", s)
			}
		}
	}
	for f, s := range w.files {
		got, ok := after[f]
		if !ok {
			bad("%s was not produced", f)
			continue
		}
		want := s
		if strings.HasPrefix(s, "IR:") {
			want = ir[s[3:]]
		} else if !w.ok && strings.HasPrefix(got, "FAKE ") {
			continue
		}
		if got != want {
			bad("%s has not the expected contents: %q...", f, clip([]byte(got))[:min(60, len(clip([]byte(got))))])
		}
	}
	for f, s := range after {
		if _, ok := w.files[f]; ok || before[f] == s && s != "" {
			continue
		}
		if w.maybe[f] {
			continue
		}
		// after a failure, later inputs may have been handled completely
		if !w.ok && g.mode != "" && g.out == "" {
			okLater := false
			for _, i := range g.in {
				in := p11inputs[i]
				suf := map[string]string{"-c": ".o", "-S": ".s", "--emit-llvm": ".ll"}[g.mode]
				if stem(in.name)+suf == f && in.kind != 'e' && in.kind != 'd' && (strings.HasPrefix(s, "FAKE ") || s == ir[in.name]) {
					okLater = true
				}
				if g.save && stem(in.name)+suf+".tmp.ll" == f && s == ir[in.name] {
					okLater = true
				}
			}
			if okLater {
				continue
			}
		}
		bad("file %s was left behind or changed", f)
	}
	if len(errs) == 0 {
		return ""
	}
	return strings.Join(errs, "\n")
}

func checkP11(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "states: steps of the reference model of the command over all configurations (mode x output name x level x debug x temporaries x libraries x spelling and place of options x lists of inputs of every kind x behaviour of the tool chain); every configuration is run with the real command, with a recording stand-in for the tool chain, and status, message, files and tool chain runs are compared with the model"
	c.Assumptions = []string{"the tool chain is replaced by a stand-in that records its arguments and the contents of its inputs; the real one is used in a small set here and in P10"}
	tool := mkdir(filepath.Join(c.Scratch, "tool"))
	if r := run(Cmd{Args: []string{"clang", "-O1", "-static", "-w", "-o", filepath.Join(tool, "clang"), filepath.Join(c.Root, "cdrv/fclang.c")}}); r.Code != 0 {
		fatal("fclang: %s", r.Err)
	}
	ir := map[string]string{}
	for _, in := range p11inputs {
		if in.kind == 'b' {
			r := c.realRun([]byte(in.body))
			if r.Code != 0 {
				c.Violation("reference", fmt.Sprintf("a valid source is rejected: %s\n%s", in.body, r.Err), nil)
				return
			}
			ir[in.name] = string(r.Out)
		}
	}
	var cfgs []*p11cfg
	add := func(g p11cfg) { cfgs = append(cfgs, &g) }
	modes := []string{"", "-c", "-S", "--emit-llvm"}
	type optv struct {
		v []string
		n int
	}
	opts := []optv{{nil, 0}, {[]string{"0"}, 0}, {[]string{"1"}, 1}, {[]string{"2"}, 2}, {[]string{"3"}, 3}}
	Ls := [][]string{nil, {"L1"}, {"sub", "L2"}}
	ls := [][]string{nil, {"m"}, {"m", "c"}, {"m", "c", "m"}, {"m", "b"}, {"c", "x1", "m"}}
	bools := []bool{false, true}
	// one input: all options
	for _, m := range modes {
		for _, out := range []string{"", "out", "od/p.q"} {
			for _, o := range opts {
				for _, g := range bools {
					for _, sv := range bools {
						for li, L := range Ls {
							for lj, l := range ls {
								for form := 0; form < 8; form++ {
									if form == 3 || form == 7 {
										continue
									}
									if !c.Thorough() && form > 1 && (li+lj+o.n)%2 == 1 {
										continue
									}
									add(p11cfg{mode: m, out: out, opt: o.v, level: o.n, g: g, save: sv, L: L, l: l, form: form, in: []int{0}, home: (li+lj)%2 == 0})
								}
							}
						}
					}
				}
			}
		}
	}
	// repeated and invalid levels, verbose
	for _, m := range modes {
		for _, o := range []optv{{[]string{"4"}, -1}, {[]string{"9"}, -1}, {[]string{"s"}, -1}, {[]string{"fast"}, -1}, {[]string{"-1"}, -1}, {[]string{"00"}, -1}, {[]string{"22"}, -1}, {[]string{"3", "1"}, 1}, {[]string{"1", "0"}, 0}, {[]string{"0", "2"}, 2}} {
			for _, sv := range bools {
				add(p11cfg{mode: m, opt: o.v, level: o.n, save: sv, form: 1, in: []int{0}})
			}
		}
		for _, in := range [][]int{{0}, {1}, {0, 1}, {0, 4}} {
			for _, sv := range bools {
				for _, st := range bools {
					for _, out := range []string{"", "out"} {
						for fail := 0; fail < 3; fail++ {
							add(p11cfg{mode: m, out: out, verb: true, save: sv, in: in, stale: st, fail: fail})
							add(p11cfg{mode: m, out: out, g: true, save: sv, in: in, stale: st, fail: fail, how: "signal"})
						}
						add(p11cfg{mode: m, out: out, save: sv, in: in, stale: st, how: "absent"})
					}
				}
			}
		}
		// an output that cannot be created
		add(p11cfg{mode: m, in: nil})
	}
	// lists of inputs
	n := len(p11inputs)
	var lists [][]int
	var rec func(l []int, k int)
	maxLen := Pick(c, 3, 4)
	rec = func(l []int, k int) {
		if len(l) > 0 {
			lists = append(lists, append([]int(nil), l...))
		}
		if len(l) == k {
			return
		}
		for i := 0; i < n; i++ {
			dup := false
			for _, j := range l {
				dup = dup || j == i
			}
			if dup || len(l) >= 3 && (p11inputs[i].kind == 'x' || p11inputs[i].kind == 'm') {
				continue
			}
			rec(append(l, i), k)
		}
	}
	rec(nil, maxLen)
	// an archive may be needed twice, and many inputs of one kind
	lists = append(lists, []int{0, 7, 6, 7}, []int{7, 0, 7}, []int{0, 7, 1, 7, 2}, []int{7, 6, 5, 4, 2, 1, 0}, []int{0, 1, 2, 4, 5, 6, 7})
	for _, l := range lists {
		for _, m := range modes {
			for _, sv := range bools {
				for fail := 0; fail <= len(l); fail++ {
					if m == "" && fail > 1 || m == "--emit-llvm" && fail > 0 {
						break
					}
					out := ""
					if m == "" && len(l)%2 == 0 || len(l) == 1 {
						out = "out"
					}
					add(p11cfg{mode: m, out: out, save: sv, in: l, fail: fail, form: 4 * (len(l) % 2), home: sv})
					if len(l) < 3 && fail == 0 {
						add(p11cfg{mode: m, save: sv, in: l, form: 8, opt: []string{"2"}, level: 2, g: true, L: Ls[2], l: ls[2]})
						add(p11cfg{mode: m, out: "od/o", save: sv, in: l, form: 1})
					}
				}
			}
		}
	}
	c.Extra["bounds"] = map[string]any{"inputs per command": maxLen, "kinds of input": n, "configurations": len(cfgs)}
	c.Phase("configurations")
	var mu sync.Mutex
	okN, failN := int64(0), int64(0)
	Parallel(len(cfgs), func(i int) {
		if c.Stop() {
			return
		}
		g := cfgs[i]
		msg := c.p11run(g, ir, tool)
		w := g.predict(ir, nil)
		c.States.Add(int64(w.steps) + 1)
		c.Transitions.Add(int64(w.steps))
		c.Traces.Add(1)
		mu.Lock()
		if w.ok {
			okN++
		} else {
			failN++
		}
		mu.Unlock()
		if i%(len(cfgs)/10+1) == 7 {
			c.Sample(map[string]any{"command": strings.Join(g.args(), " "), "succeeds": w.ok, "tool chain runs": w.calls})
		}
		if msg == "" {
			return
		}
		for k := 0; k < 3; k++ {
			if c.p11run(g, ir, tool) == "" {
				return
			}
		}
		c.Violation("command:"+p11key(g), fmt.Sprintf("blang %s\n(tool chain: run %d fails, %q; existing outputs: %v)\n%s", strings.Join(g.args(), " "), g.fail, g.how, g.stale, msg), nil)
	})
	c.Outcome("commands that succeed", okN)
	c.Outcome("commands that fail", failN)
	c.Phase("commands")
	c.p11special(ir, tool)
	c.Phase("special")
}

func p11key(g *p11cfg) string {
	var in []string
	for _, i := range g.in {
		in = append(in, p11inputs[i].name)
	}
	return fmt.Sprintf("%s:%s:O%d:g%v:s%v:L%d:l%d:%s:f%d%s", g.mode, g.out, g.level, g.g, g.save, len(g.L), len(g.l), strings.Join(in, "+"), g.fail, g.how)
}

// p11special: outputs that coincide with inputs, options that stop early,
// outputs that cannot be created, and the real tool chain.
func (c *Ctx) p11special(ir map[string]string, tool string) {
	type sp struct {
		args  string
		files map[string]string
		ok    bool
		want  map[string]string // new files: name -> kind ("elf", "obj", "asm", "ir", "any")
		real  bool
		keep  bool // only: inputs stay as they are
		odd   string
		calls int // expected runs of the stand-in (-1: any)
		argv  []string
	}
	a, b := p11inputs[0].body, p11inputs[1].body
	fx := map[string]string{"a.b": a, "f.b": b}
	var l []sp
	add := func(args string, ok bool, want map[string]string) {
		l = append(l, sp{args: args, files: fx, ok: ok, want: want, calls: -1})
	}
	for _, s := range []string{"-h", "--help", "-V", "--version"} {
		add(s, true, nil)
		add(s+" a.b", true, nil)
		add("a.b "+s, true, nil)
	}
	for _, s := range []string{"", "-c", "-S", "--emit-llvm", "-O2 -g", "-o x", "--nosuch a.b", "-z a.b", "a.b --outputs x", "a.b -o", "a.b -O", "-O a.b", "-L", "-c a.b -q", "a", "a.B", "a.b.", ".", "a.b f.c"} {
		if s == "-O a.b" || s == "-L" {
			continue
		}
		add(s, false, nil)
	}
	for _, m := range []string{"", "-c ", "-S ", "--emit-llvm "} {
		add(m+"-o nodir/x a.b", false, nil)
		add(m+"-o d a.b", false, nil) // a directory
		// an output named like an input
		l = append(l, sp{args: m + "-o a.b a.b", files: fx, keep: true, calls: -1})
		l = append(l, sp{args: m + "a.b -o ./a.b", files: fx, keep: true, calls: -1})
		l = append(l, sp{args: m + "-o f.b a.b f.b", files: fx, keep: true, calls: -1})
		l = append(l, sp{args: m + "-o d/../a.b a.b", files: fx, keep: true, calls: -1})
		l = append(l, sp{args: m + "-o link a.b", files: fx, keep: true, odd: "link", calls: -1})
		l = append(l, sp{args: m + "-o hard a.b", files: fx, keep: true, odd: "hard", calls: -1})
	}
	ll := map[string]string{"a.b": a, "f.b": b, "a.ll": "; m\n", "f.ll": "; n\n", "a.s": "# s\n", "a.o": "o", "a.tmp.ll": "; t\n", "a.tmp.0.ll": "; t0\n", "f.tmp.1.ll": "; t1\n", "a.tmp.1.ll": "; t1\n", "f.tmp.0.ll": "; t1\n", "x.tmp.1.ll": "; t1\n", "x.tmp.0.ll": "; t1\n", "a.o.tmp.ll": "; u\n", "a.s.tmp.ll": "; v\n", "x.tmp.ll": "; x\n"}
	for _, s := range []string{"a.b a.tmp.0.ll", "a.tmp.0.ll a.b", "a.b f.b a.tmp.0.ll", "a.b f.b f.tmp.1.ll", "f.b a.b f.tmp.1.ll", "a.b f.b a.tmp.1.ll", "f.b a.b f.tmp.0.ll", "a.b f.b x.tmp.1.ll -o x", "x.tmp.0.ll f.b a.b -o x", "x.tmp.1.ll f.b a.b -o x", "-S a.ll -o a.ll", "-c a.s -o a.s", "-c a.ll -o a.ll", "a.o -o a.o", "a.b a.o -o a.o", "a.b a.ll -o a.ll", "-S a.b a.s.tmp.ll", "-c a.b a.o.tmp.ll", "-c a.o.tmp.ll a.b", "-S a.s.tmp.ll a.b", "--save-temps a.b a.tmp.0.ll", "--save-temps -c a.b a.o.tmp.ll", "a.b -o a.ll", "-c a.b a.ll", "-S a.b a.ll", "-c a.ll a.s", "-S a.ll f.ll", "-c a.ll f.ll a.b"} {
		l = append(l, sp{args: s, files: ll, keep: true, calls: -1})
	}
	// the real tool chain
	rl := func(args string, want map[string]string) {
		l = append(l, sp{args: args, files: fx, ok: true, want: want, real: true})
	}
	for _, o := range []string{"", "-O0 ", "-O2 -g ", "-O3 --save-temps "} {
		t := func(m map[string]string, temps ...string) map[string]string {
			r := map[string]string{}
			for k, v := range m {
				r[k] = v
			}
			if strings.Contains(o, "save") {
				for _, x := range temps {
					r[x] = "ir"
				}
			}
			return r
		}
		rl(o+"a.b f.b -L$LIB", t(map[string]string{"a": "elf"}, "a.tmp.0.ll", "a.tmp.1.ll"))
		rl(o+"f.b a.b -L $LIB -o prog", t(map[string]string{"prog": "elf"}, "prog.tmp.0.ll", "prog.tmp.1.ll"))
		rl(o+"-c a.b f.b", t(map[string]string{"a.o": "obj", "f.o": "obj"}, "a.o.tmp.ll", "f.o.tmp.ll"))
		rl(o+"-S a.b f.b", t(map[string]string{"a.s": "asm", "f.s": "asm"}, "a.s.tmp.ll", "f.s.tmp.ll"))
		rl(o+"--emit-llvm a.b f.b", map[string]string{"a.ll": "ir", "f.ll": "ir"})
		rl(o+"-c a.b -o d/x.y", t(map[string]string{"d/x.y": "obj"}, "d/x.y.tmp.ll"))
		rl(o+"-S a.b -o d/x.y", t(map[string]string{"d/x.y": "asm"}, "d/x.y.tmp.ll"))
		rl(o+"--emit-llvm a.b -o d/x.y", map[string]string{"d/x.y": "ir"})
	}
	// names with characters that mean something to a shell, an option parser or
	// the tool chain
	libb, _ := os.ReadFile(filepath.Join(c.LibDir, "libb.a"))
	whole := a + "v;" + b
	irText := "define i64 @main() {\n  ret i64 42\n}\n"
	asText := "\t.text\n\t.globl main\nmain:\tmovq $42, %rax\n\tret\n"
	named := func(files map[string]string, want map[string]string, argv ...string) {
		l = append(l, sp{args: strings.Join(argv, " "), argv: argv, files: files, ok: true, want: want, real: true})
	}
	for _, n := range []string{"-a", "--", "-c", "-o", "@a", "a b", "a,b", "a=b", "%d", "a'b", "a\"b", "a;b", "$HOME", "*", "#", "~", "a\\b", "\xc3\xa9", "a:b", "+1", "a.b", "a\nb", "[a]", "{}", "!", "&", "x.tmp"} {
		src := map[string]string{n + ".b": whole}
		for m, k := range map[string]string{"": "elf", "-c": "obj", "-S": "asm", "--emit-llvm": "ir"} {
			suf := map[string]string{"": "", "-c": ".o", "-S": ".s", "--emit-llvm": ".ll"}[m]
			var pre []string
			if m == "" {
				pre = []string{"-L", c.LibDir}
			} else {
				pre = []string{m}
			}
			named(src, map[string]string{n + suf: k}, append(pre, "--", n+".b")...)
			named(map[string]string{"a.b": whole}, map[string]string{n + "_": k}, append(pre, "--output="+n+"_", "a.b")...)
			named(src, map[string]string{"d/" + n: k}, append(pre, "--output=d/"+n, "--", n+".b")...)
			if m == "-c" || m == "-S" {
				named(map[string]string{n + ".ll": irText}, map[string]string{n + suf: k}, m, "--", n+".ll")
			}
			if m == "-c" {
				named(map[string]string{n + ".s": asText}, map[string]string{n + suf: k}, m, "--", n+".s")
			}
		}
		named(map[string]string{n + ".b": a, n + "2.b": b}, map[string]string{"x": "elf"}, "-L", c.LibDir, "-o", "x", "--", n+".b", n+"2.b")
		named(map[string]string{n + ".b": a, n + "2.b": b}, map[string]string{n: "elf"}, "-L"+c.LibDir, "--", n+".b", n+"2.b")
		named(map[string]string{n + ".ll": irText, n + "2.b": b}, map[string]string{n: "elf"}, "-L", c.LibDir, "--", n+".ll", n+"2.b")
		named(map[string]string{n + "2.b": b, n + ".s": asText}, map[string]string{n + "2": "elf"}, "-L", c.LibDir, "--", n+"2.b", n+".s")
		// library directories and libraries
		for _, f := range []func(s, l, v string) []string{
			func(s, l, v string) []string { return []string{s, v} }, func(s, l, v string) []string { return []string{s + v} }, func(s, l, v string) []string { return []string{l + "=" + v} }, func(s, l, v string) []string { return []string{l, v} },
		} {
			if strings.HasPrefix(n, "=") {
				continue
			}
			argv := append(f("-L", "--library-dir", "d/"+n), "a.b", "-o", "x")
			named(map[string]string{"a.b": whole, "d/" + n + "/libb.a": string(libb)}, map[string]string{"x": "elf"}, argv...)
			argv = append(append(argv, f("-l", "--library", n)...), f("-L", "--library-dir", "d/"+n+"/e")...)
			named(map[string]string{"a.b": whole, "d/" + n + "/libb.a": string(libb), "d/" + n + "/e/lib" + n + ".a": string(libb)}, map[string]string{"x": "elf"}, argv...)
		}
	}
	check := func(s sp) string {
		dir := c.Temp()
		defer os.RemoveAll(dir)
		cwd := mkdir(filepath.Join(dir, "w"))
		mkdir(filepath.Join(cwd, "d"))
		for f, t := range s.files {
			mkdir(filepath.Dir(filepath.Join(cwd, f)))
			mustWrite(filepath.Join(cwd, f), []byte(t))
		}
		switch s.odd {
		case "link":
			os.Symlink("a.b", filepath.Join(cwd, "link"))
		case "hard":
			os.Link(filepath.Join(cwd, "a.b"), filepath.Join(cwd, "hard"))
		}
		path := tool
		if s.real {
			path = os.Getenv("PATH")
		}
		log := filepath.Join(dir, "log")
		args := append([]string{c.Blang}, strings.Fields(strings.ReplaceAll(s.args, "$LIB", c.LibDir))...)
		if s.argv != nil {
			args = append([]string{c.Blang}, s.argv...)
		}
		r := run(Cmd{Dir: cwd, Env: []string{"PATH=" + path, "HOME=" + dir, "FCLANG_LOG=" + log, "TMPDIR=" + dir}, Args: args, Timeout: 120 * time.Second})
		if r.Code == -3 || r.Code == -2 {
			return ""
		}
		var errs []string
		bad := func(f string, a ...any) { errs = append(errs, fmt.Sprintf(f, a...)) }
		for f, t := range s.files {
			got, _ := os.ReadFile(filepath.Join(cwd, f))
			named := false
			for _, x := range strings.Fields(s.args) {
				named = named || x == f
			}
			if s.keep && !named || strings.HasSuffix(s.args, "-o "+f) && f != "a.b" && !s.keep {
				continue
			}
			isOut := false // named as the output only
			fs := strings.Fields(s.args)
			for k, x := range fs {
				if x == f && k > 0 && fs[k-1] == "-o" {
					isOut = true
				}
			}
			count := 0
			for _, x := range fs {
				if x == f {
					count++
				}
			}
			if isOut && count == 1 {
				continue
			}
			if string(got) != t {
				bad("input %s was changed or removed", f)
			}
		}
		if s.odd != "" {
			if got, _ := os.ReadFile(filepath.Join(cwd, "a.b")); string(got) != s.files["a.b"] {
				bad("input a.b was changed through %s", s.odd)
			}
		}
		if r.Code != 0 && len(bytes.TrimSpace(r.Err)) == 0 && strings.TrimSpace(s.args) != "" {
			bad("failed without a message on standard error")
		}
		if r.Code < 0 || r.Code > 127 {
			bad("ended abnormally: status %d %s", r.Code, r.Signal)
		}
		if s.keep {
			return strings.Join(errs, "\n")
		}
		if s.real && len(r.Out) > 0 {
			bad("unexpected standard output: %s", clip(r.Out))
		}
		if s.ok != (r.Code == 0) {
			bad("exit status %d; standard error: %s", r.Code, clip(r.Err))
		}
		got := map[string]string{}
		filepath.Walk(cwd, func(p string, fi os.FileInfo, err error) error {
			rel, _ := filepath.Rel(cwd, p)
			if err != nil || fi.IsDir() {
				return nil
			}
			if _, ok := s.files[rel]; ok {
				return nil
			}
			b, _ := os.ReadFile(p)
			k := "other"
			switch {
			case bytes.HasPrefix(b, []byte("\x7fELF")) && len(b) > 17 && b[16] == 1:
				k = "obj"
			case bytes.HasPrefix(b, []byte("\x7fELF")) && len(b) > 17 && (b[16] == 2 || b[16] == 3):
				k = "elf"
				if rr := run(Cmd{Dir: cwd, Args: []string{p}, Timeout: 30 * time.Second}); rr.Code != 42 {
					k = fmt.Sprintf("elf that exits with %d instead of 42", rr.Code)
				}
			case bytes.Contains(b, []byte("define ")):
				k = "ir"
			case bytes.Contains(b, []byte(".text")):
				k = "asm"
			case bytes.HasPrefix(b, []byte("FAKE")):
				k = "fake"
			}
			got[rel] = k
			return nil
		})
		if fmt.Sprint(got) != fmt.Sprint(s.want) && !(len(got) == 0 && len(s.want) == 0) {
			bad("files produced: %v, expected: %v", got, s.want)
		}
		if b, err := os.ReadFile(log); err == nil && !s.ok && strings.Contains(string(b), "-o") && !strings.Contains(s.args, "-o ") {
			bad("the tool chain was run: %s", clip(b))
		}
		return strings.Join(errs, "\n")
	}
	sort.SliceStable(l, func(i, j int) bool { return l[i].real && !l[j].real })
	Parallel(len(l), func(i int) {
		if c.Stop() {
			return
		}
		c.States.Add(2)
		c.Transitions.Add(1)
		c.Traces.Add(1)
		m := check(l[i])
		for k := 0; k < 3 && m != ""; k++ {
			m = check(l[i])
		}
		if m != "" {
			c.Violation("special:"+strings.TrimSpace(l[i].args), "blang "+l[i].args+" "+l[i].odd+"\n"+m, nil)
		}
	})
	c.Outcome("special commands", int64(len(l)))
}
