package main

import (
	"bytes"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"regexp"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() { checks["P21"] = checkP21 }

// cpu is a processor the documentation names, besides the one the check runs on.
type cpu struct {
	name   string
	flags  []string
	plain  []string // flags that leave only the integer instructions
	goos   string   // how the Go tool chain calls it
	blang  string
	links  [][]string // ways to link an executable
	split  bool       // functions with several parameters can be judged
	lib    map[string][]string
	libErr string
}

const p21header = `#pragma once
`

// p21 is the state of one run of the check.
type p21 struct {
	c    *Ctx
	emu  string
	inc  string
	lld  []string
	cpus []*cpu
	libs []string
}

func (p *p21) clang(u *cpu, plain bool, args ...string) Result {
	a := append([]string{"clang", "-Wno-override-module", "-target"}, u.flags...)
	if plain {
		a = append(a, u.plain...)
	}
	return run(Cmd{Dir: p.c.Scratch, Args: append(a, args...), Timeout: 300 * time.Second})
}

// library compiles the run-time library for the processor.
func (p *p21) library(u *cpu, level string, plain bool) ([]string, string) {
	dir := p.c.Temp()
	src, _ := filepath.Glob(filepath.Join(p.c.LibDir, "*.c"))
	var objs []string
	for _, f := range src {
		o := filepath.Join(dir, strings.TrimSuffix(filepath.Base(f), ".c")+".o")
		args := []string{level, "-ffreestanding", "-w", "-Dlinux", "-nostdlibinc", "-I" + p.inc, "-idirafter", "/usr/include", "-c", "-o", o, f}
		if r := p.clang(u, plain, args...); r.Code != 0 {
			return nil, fmt.Sprintf("%s: %s", filepath.Base(f), clip(r.Err))
		}
		objs = append(objs, o)
	}
	return objs, ""
}

var p21missing = regexp.MustCompile(`file not found|No such file|unable to create target|unknown target`)

// emuRun runs an executable in the interpreter. note tells how it ended.
func (p *p21) emuRun(exe string, steps int64, in []byte, limit time.Duration) (r Result, note string) {
	n := exe + ".note"
	os.Remove(n)
	if in == nil {
		in = []byte{}
	}
	r = run(Cmd{Args: []string{p.emu, exe, fmt.Sprint(steps), n}, Stdin: in, Timeout: limit})
	b, _ := os.ReadFile(n)
	return r, strings.TrimSpace(string(b))
}

func checkP21(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "states: nodes of the reference machine over the program set (every n-th program of the enumerations of P01 to P06) and runs of whole programs that call each run-time routine over its argument domain; the intermediate code and the run-time library are compiled for 64-bit RISC-V and 64-bit ARM and executed by an interpreter of those instruction sets; every run of the model is replayed there, and whole programs give the output, error output and status they give on x86_64"
	c.Assumptions = []string{"the interpreter executes the integer instructions as the architecture manuals define them; programs with instructions it does not know are counted as not decided", "macOS is not covered: its system libraries are not available here"}
	p := &p21{c: c, emu: filepath.Join(c.Scratch, "emu"), inc: mkdir(filepath.Join(c.Scratch, "inc"))}
	mustWrite(filepath.Join(mkdir(filepath.Join(p.inc, "sys")), "syscall.h"), []byte(p21header+p21numbers()))
	if r := run(Cmd{Args: []string{"clang", "-O2", "-w", "-o", p.emu, filepath.Join(c.Root, "cdrv", "emu.c")}}); r.Code != 0 {
		fatal("emu: %s", r.Err)
	}
	p.cpus = []*cpu{
		{name: "riscv64", flags: []string{"riscv64-linux-gnu", "-march=rv64imafd", "-mabi=lp64d"}, goos: "linux/riscv64", links: [][]string{nil}},
		{name: "aarch64", flags: []string{"aarch64-linux-gnu"}, plain: []string{"-mgeneral-regs-only"}, goos: "linux/arm64", links: [][]string{nil}},
	}
	if x, err := exec.LookPath("lld"); err == nil {
		p.lld = []string{x, "-flavor", "gnu", "-static"}
	}
	// can this machine build for the processor at all?
	probe := filepath.Join(c.Scratch, "probe.c")
	mustWrite(probe, []byte("void _start(void){for(;;);}\n"))
	var can []*cpu
	for _, u := range p.cpus {
		o := filepath.Join(c.Scratch, "probe-"+u.name)
		if p.lld != nil && p.clang(u, false, "-c", "-o", o+".o", probe).Code == 0 && run(Cmd{Args: append(p.lld, "-o", o, o+".o")}).Code == 0 {
			can = append(can, u)
		} else {
			c.Outcome("not run: no compiler or linker for "+u.name, 1)
			c.capped.Store(true)
		}
	}
	p.cpus = can
	for _, u := range p.cpus {
		p.compiler(u)
		u.lib = map[string][]string{}
	}
	p.libs = Pick(c, []string{"-O1", "-O2"}, []string{"-O1", "-O0", "-O2", "-O3", "-Os"})
	for _, u := range p.cpus {
		for _, l := range p.libs {
			for _, plain := range []bool{false, true} {
				if plain && u.plain == nil {
					continue
				}
				objs, msg := p.library(u, l, plain)
				if msg == "" {
					u.lib[fmt.Sprint(l, plain)] = objs
					continue
				}
				if p21missing.MatchString(msg) {
					c.Outcome("not run: library not compiled for "+u.name, 1)
					c.capped.Store(true)
				} else {
					c.Violation("library:"+u.name, fmt.Sprintf("the run-time library does not compile for %s with %s: %s", u.name, l, msg), nil)
				}
			}
		}
	}
	c.Phase("build")
	p.whole()
	c.Phase("whole programs")
	p.language()
	c.Phase("language")
}

// p21numbers lists the system call numbers all newer architectures share.
func p21numbers() string {
	var s strings.Builder
	b, _ := os.ReadFile("/usr/include/asm-generic/unistd.h")
	for _, m := range regexp.MustCompile(`(?m)^#define __NR(?:3264)?_(\w+) (\d+)`).FindAllStringSubmatch(string(b), -1) {
		fmt.Fprintf(&s, "#ifndef SYS_%s\n#define SYS_%s %s\n#endif\n", m[1], m[1], m[2])
	}
	if s.Len() == 0 {
		return "#define SYS_read 63\n#define SYS_write 64\n#define SYS_exit 93\n#define SYS_exit_group 94\n"
	}
	return s.String()
}

// compiler builds the compiler as it is on that processor: what it emits may
// depend on the platform it was built for.
func (p *p21) compiler(u *cpu) {
	c := p.c
	u.blang = filepath.Join(c.Scratch, "blang-"+u.name)
	r := run(Cmd{Dir: c.Repo, Args: []string{"go", "build", "-buildvcs=false", "-ldflags", "-X main.targetPlatform=" + u.goos, "-o", u.blang, "."}})
	if r.Code != 0 {
		fatal("compiler for %s: %s", u.name, r.Err)
	}
	u.split = true
	if u.name == "aarch64" {
		// LLVM's va_arg instruction does not know this platform's argument list:
		// code that relies on it was not made for this processor.
		d := c.Temp()
		f := filepath.Join(d, "t.b")
		mustWrite(f, []byte("f(a,b){return(b);}"))
		r := run(Cmd{Dir: d, Env: c.env(), Args: []string{c.Blang, "--emit-llvm", "-o", "x.ll", f}})
		q := run(Cmd{Dir: d, Env: c.env(), Args: []string{u.blang, "--emit-llvm", "-o", "y.ll", f}})
		a, _ := os.ReadFile(filepath.Join(d, "x.ll"))
		b, _ := os.ReadFile(filepath.Join(d, "y.ll"))
		if r.Code == 0 && q.Code == 0 && bytes.Equal(a, b) && bytes.Contains(b, []byte("va_arg")) {
			u.split = false
			c.Outcome("not run: functions with several parameters on "+u.name, 1)
			c.capped.Store(true)
		}
	}
}

// emit compiles a source file as the compiler on that processor does.
func (p *p21) emit(u *cpu, dir, src string) (string, string) {
	ll := filepath.Join(dir, u.name+".ll")
	r := run(Cmd{Dir: dir, Env: p.c.env(), Args: limited(200, u.blang, "--emit-llvm", "-o", ll, src)})
	if r.Code != 0 {
		return "", fmt.Sprintf("compiler failed on a valid program: status %d %s\n%s%s", r.Code, r.Signal, clip(r.Out), clip(r.Err))
	}
	return ll, ""
}

// ---- whole programs

type p21prog struct {
	name, src string
	ins       []string
	several   bool // has functions with several parameters
}

func (p *p21) programs() (l []p21prog) {
	c := p.c
	add := func(name, src string, ins ...string) {
		if len(ins) == 0 {
			ins = []string{""}
		}
		l = append(l, p21prog{name, src, ins, regexp.MustCompile(`(?m)^[\w.]+\([\w.]+\s*,`).MatchString(src)})
	}
	add("numbers", `
show(x) { printd(x); write(' '); printo(x); printf("[%d %o %c]*n", x, x, x); write(x); }
around(x) { show(x-1); show(x); show(x+1); show(-x); show(-x-1); show(-x+1); }
main() {
	auto k, x;
	x = 1; k = 0;
	while (k < 64) { around(x); around(x*3); x = x << 1; k++; }
	x = 1; k = 0;
	while (k < 20) { around(x); around(x*9); x = x * 10; k++; }
}
`)
	add("words", `
main() {
	extrn tab;
	auto a, b, d, e, s;
	a = 0;
	while (a < 6) { b = 0;
		while (b < 6) { d = 0;
			while (d < 6) { e = 0;
				while (e < 6) { s = 0;
					while (s < 64) {
						write((tab[a]<<24 | tab[b]<<16 | tab[d]<<8 | tab[e]) << s);
						write('*n');
						s = s + 8;
					}
				e++; }
			d++; }
		b++; }
	a++; }
	a = -300;
	while (a < 600) { writeb(a); a++; }
}
tab[5] 0, 1, 'a', 127, 128, 255;
`)
	add("bytes", `
main() {
	auto v[3], b, i, j, h;
	b = 0;
	while (b < 256) {
		i = 0;
		while (i < 16) {
			v[0] = 072623452345; v[1] = -1; v[2] = 0;
			lchar(v, i, b);
			h = 0; j = 0;
			while (j < 16) { h = h * 31 + char(v, j); j++; }
			printo(h); write(' '); printd(v[0] + v[1]); write('*n');
			i++;
		}
		b++;
	}
	i = -600;
	while (i < 600) { v[0] = 0; lchar(v, 3, i); printd(v[0]); printd(char(v, 3)); i = i + 37; }
}
`)
	// every format over a small alphabet
	var calls strings.Builder
	alpha := []string{"%", "d", "o", "c", "s", "a", "\xc8"}
	n := 0
	var rec func(s string, depth int)
	rec = func(s string, depth int) {
		if n%80 == 0 {
			if n > 0 {
				calls.WriteString("}\n")
			}
			fmt.Fprintf(&calls, "f%d() {\n", n/80)
		}
		n++
		var args []string
		for i := 0; i+1 < len(s); i++ {
			if s[i] == '%' {
				i++
				switch s[i] {
				case 'd', 'o':
					args = append(args, []string{"-5", "1<<63", "0", "77777"}[len(args)%4])
				case 'c':
					args = append(args, []string{"'ab'", "'*n'"}[len(args)%2])
				case 's':
					args = append(args, []string{`"x%dy"`, `""`, "\"\xff\xc8\""}[len(args)%3])
				}
			}
		}
		fmt.Fprintf(&calls, "\tprintf(\"%s\"%s);\n", s, strings.Join(append([]string{""}, args...), ", "))
		if depth > 0 {
			for _, a := range alpha {
				rec(s+a, depth-1)
			}
		}
	}
	rec("", Pick(c, 3, 4))
	calls.WriteString("}\nmain() {\n")
	for i := 0; i <= (n-1)/80; i++ {
		fmt.Fprintf(&calls, "\tf%d();\n", i)
	}
	calls.WriteString("}\n")
	add("formats", calls.String())
	var many strings.Builder
	many.WriteString("main() {\n")
	for k := 0; k <= 24; k++ {
		f, a := strings.Repeat("%d,%s;", k), ""
		for i := 0; i < k; i++ {
			a += fmt.Sprintf(", %d, \"s%d\"", 1000-i*77, i)
		}
		fmt.Fprintf(&many, "\tprintf(\"%s*n\"%s);\n", f, a)
	}
	many.WriteString("}\n")
	add("many", many.String())
	add("streams", `
out() { printf("p%d", 5); write('w'); writeb('b'); printd(-9); printo(9); }
main() {
	extrn fout;
	auto i, v[2];
	i = 0; v[0] = 'abcdefgh'; v[1] = 0;
	while (i < 6) { fout = i & 1; out(); nwrite(1 + (i > 2), v, i); printd(nwrite(2 - (i > 2), v, 8 - i)); fout = 1 - fout; out(); flush(); i++; }
	printd(nwrite(77, v, 3)); printd(nread(78, v, 3)); printd(nwrite(1, v, 0));
}
`)
	all := make([]byte, 256)
	for i := range all {
		all[i] = byte(i)
	}
	add("read", `
main() {
	auto i, c;
	i = 0;
	while (i < 270) { c = read(); printd(c); write(' '); i++; }
}
`, "", "a", string(all), "\x04\x00\xffz\x80", strings.Repeat("xyz\n", 80))
	add("nread", `
main() {
	auto v[6], n, k, j;
	n = 0;
	while (n < 12) {
		v[0] = v[1] = v[2] = v[3] = v[4] = v[5] = -1;
		k = nread(0, v, n);
		printd(k); write(':');
		j = 0;
		while (j < 40) { printo(char(v, j)); j++; }
		write(read());
		write('*n');
		n++;
	}
}
`, "", "a", "hello world, a longer text than that, and then some more of it follows here\n", string(all))
	// status: a number read from the input
	add("status", `
deep(n, how) { if (n) return (deep(n - 1, how) + 0); if (how) exit(); return (7); }
main() {
	extrn last;
	auto c, n, neg;
	n = 0; neg = 0;
	while (1) { c = read();
		if (c >= '0' & c <= '9') n = n * 10 + c - '0';
		else if (c == '-') neg = 1;
		else if (c == 'x') { printf("deep"); deep(n, 1); printf("not here"); return (1); }
		else if (c == 'y') { printf("deep"); last = deep(n, 0); return (last); }
		else return (neg ? -n : n);
	}
}
last 3;
`, "0\n", "1\n", "127\n", "128\n", "255\n", "256\n", "-1\n", "65535\n", "9223372036854775807\n", "4294967296\n", "0x", "1x", "500x", "0y", "9y")
	add("noreturn", "main() { printf(\"a\"); if (0) return (5); }\n")
	add("empty", "main() { }\n")
	// functions of every number of parameters, called in every way
	var d, m strings.Builder
	for n := 0; n <= 14; n++ {
		var ps, as []string
		for i := 0; i < n; i++ {
			ps = append(ps, fmt.Sprintf("a%d", i))
			as = append(as, fmt.Sprint(100*n+i))
		}
		fmt.Fprintf(&d, "f%d(%s) {\n\tauto l; l = 5;\n\tprintf(\"f%d:\");\n", n, strings.Join(ps, ", "), n)
		for _, a := range ps {
			fmt.Fprintf(&d, "\tprintf(\" %%d\", %s);\n", a)
		}
		for k, a := range ps {
			if k%3 == 1 {
				fmt.Fprintf(&d, "\t%s =+ l; l = %s;\n", a, a)
			}
		}
		fmt.Fprintf(&d, "\tprintf(\"*n\");\n\treturn (l + %d%s);\n}\n", n, strings.Join(append([]string{""}, ps...), " + "))
		al := strings.Join(as, ", ")
		fmt.Fprintf(&m, "\tprintd(f%d(%s)); p = f%d; printd(p(%s)); t[0] = f%d; printd(t[0](%s));\n", n, al, n, al, n, al)
		more := strings.Join(append(append([]string{}, as...), "1", "2", "3"), ", ")
		fmt.Fprintf(&m, "\tprintd(f%d(%s)); printd(p(%s));\n", n, more, more)
		if n > 0 {
			nest := append([]string{}, as...)
			for i := range nest {
				nest[i] = fmt.Sprintf("f%d(%s)", i%3, strings.Join([]string{nest[i], "8"}[:min(2, i%3)], ", "))
			}
			fmt.Fprintf(&m, "\tprintd(f%d(%s));\n", n, strings.Join(nest, ", "))
		}
		fmt.Fprintf(&d, "g%d(%s) {\n\tprintf(\"g%d:\");\n", n, strings.Join(append([]string{"k"}, ps...), ", "), n)
		for i, a := range ps {
			fmt.Fprintf(&d, "\tif (k > %d) printf(\" %%d\", %s);\n", i, a)
		}
		fmt.Fprintf(&d, "\tprintf(\"*n\");\n}\n")
		for k := 0; k < n; k++ { // fewer arguments than parameters
			some := strings.Join(append([]string{fmt.Sprint(k)}, as[:k]...), ", ")
			fmt.Fprintf(&m, "\tg%d(%s); p = g%d; p(%s);\n", n, some, n, some)
		}
	}
	add("calls", d.String()+"main() {\n\tauto p, t[1];\n"+m.String()+"}\n")
	// only functions of one or no parameter
	add("single", `
f(n) { return (n < 2 ? n : f(n-1) + f(n-2)); }
g() { extrn a; a++; return (a); }
a 5; v[5] 1, "text", 'c', 7;
main() { extrn v, a; auto p, i; i = 0; while (i < 15) { printf("%d ", f(i)); i++; } p = f; printd(p(10)); v[3] = &a; printf("%d%d%s%c%d", g(), g(), v[1], v[2], *v[3]); v[4] = &v[2]; *v[4] = 'z'; write(v[2]); }
`)
	names, srcs := c.corpus()
	for i, n := range names {
		ins := []string{""}
		if n == "b.b" {
			ins = []string{"", "main(){}", "main() { extrn a; auto x; x = 1; if (x == 2) a = x + 3; while (x) x = x - 1; return (a); }\n"}
		}
		add(n, srcs[i], ins...)
	}
	return
}

func (p *p21) whole() {
	c := p.c
	progs := p.programs()
	levels := Pick(c, []int{0, 2}, []int{0, 1, 2, 3})
	// what x86_64 does
	type res struct {
		out, err string
		code     int
	}
	want := make([][]res, len(progs))
	nat := make([]string, len(progs))
	native := func(exe string, in string) (res, bool) {
		r := run(Cmd{Args: limited(20, exe), Stdin: []byte(in), Timeout: 60 * time.Second})
		return res{string(r.Out), string(r.Err), r.Code}, r.Code >= 0 && r.Signal == ""
	}
	Parallel(len(progs), func(i int) {
		d := c.Temp()
		f := filepath.Join(d, "prog.b")
		mustWrite(f, []byte(progs[i].src))
		nat[i] = filepath.Join(d, "prog")
		r := run(Cmd{Dir: d, Env: c.env(), Args: []string{c.Blang, "-L", c.LibDir, "-o", nat[i], f}})
		if r.Code != 0 {
			nat[i] = ""
			return
		}
		for _, in := range progs[i].ins {
			w, ok := native(nat[i], in)
			if !ok {
				nat[i] = "" // does not run here: other checks tell why
				return
			}
			want[i] = append(want[i], w)
		}
	})
	type job struct {
		i, level int
		u        *cpu
		lib      string
		link     []string
	}
	var jobs []job
	skipped := int64(0)
	for i := range progs {
		if nat[i] == "" {
			skipped++
			c.Outcome("not decided here, does not build or run on x86_64: "+progs[i].name, 1)
			continue
		}
		for _, u := range p.cpus {
			if progs[i].several && !u.split {
				continue
			}
			for _, lv := range levels {
				for _, lib := range p.libs {
					for _, ln := range u.links {
						jobs = append(jobs, job{i, lv, u, lib, ln})
					}
				}
			}
		}
	}
	if skipped > 0 {
		c.Outcome("whole programs that do not build or run on x86_64 (not decided here)", skipped)
	}
	// try builds and runs one program; "" when it behaves as on x86_64
	try := func(j job) string {
		d := c.Temp()
		defer os.RemoveAll(d)
		f := filepath.Join(d, "prog.b")
		mustWrite(f, []byte(progs[j.i].src))
		ll, msg := p.emit(j.u, d, f)
		if msg != "" {
			return msg
		}
	again:
		for _, plain := range []bool{false, true} {
			lib := j.u.lib[fmt.Sprint(j.lib, plain)]
			if lib == nil {
				if plain {
					c.Outcome("not decided: instructions unknown to the interpreter", 1)
					c.capped.Store(true)
				}
				return ""
			}
			o, exe := filepath.Join(d, "prog.o"), filepath.Join(d, "prog")
			if r := p.clang(j.u, plain, fmt.Sprintf("-O%d", j.level), "-c", "-o", o, ll); r.Code != 0 {
				return fmt.Sprintf("the intermediate code does not compile: %s", clip(r.Err))
			}
			args := append(append(append([]string{}, p.lld...), j.link...), "-o", exe, o)
			if r := run(Cmd{Args: append(args, lib...)}); r.Code != 0 {
				return fmt.Sprintf("linking failed: %s", clip(r.Err))
			}
			for k, in := range progs[j.i].ins {
				r, note := p.emuRun(exe, 3e9, []byte(in), 200*time.Second)
				if strings.HasPrefix(note, "UNKNOWN") {
					continue again
				}
				if note == "" || r.Code == 126 {
					c.Outcome("not decided: the interpreter did not finish", 1)
					c.capped.Store(true)
					return ""
				}
				c.Traces.Add(1)
				got := res{string(r.Out), string(r.Err), r.Code}
				if !strings.HasPrefix(note, "EXIT") || got != want[j.i][k] {
					return fmt.Sprintf("with input %q: %s status %d output %q error output %q; on x86_64: status %d output %q error output %q",
						clip([]byte(in)), note, r.Code, diffAt(got.out, want[j.i][k].out), clip(r.Err), want[j.i][k].code, diffAt(want[j.i][k].out, got.out), clip([]byte(want[j.i][k].err)))
				}
			}
			return ""
		}
		return ""
	}
	Parallel(len(jobs), func(k int) {
		if c.Stop() {
			return
		}
		j := jobs[k]
		if try(j) == "" {
			return
		}
		msg := ""
		for n := 0; n < 3; n++ {
			if msg = try(j); msg == "" {
				return
			}
			for q, in := range progs[j.i].ins {
				if w, ok := native(nat[j.i], in); !ok || w != want[j.i][q] {
					return // not the same every time here: no verdict
				}
			}
		}
		c.Violation("whole:"+j.u.name+":"+progs[j.i].name, fmt.Sprintf("%s on %s (-O%d, library %s, link %v): %s", progs[j.i].name, j.u.name, j.level, j.lib, j.link, msg), map[string]string{"prog.b": progs[j.i].src})
	})
	c.Outcome("whole programs", int64(len(progs)))
	c.Outcome("builds of whole programs", int64(len(jobs)))
	c.States.Add(int64(len(jobs)))
	for i := 0; i < len(progs); i += len(progs)/4 + 1 {
		c.Sample(map[string]any{"whole program": progs[i].name, "inputs": len(progs[i].ins)})
	}
}

// diffAt cuts a long text down to the place where it differs from another.
func diffAt(a, b string) string {
	i := 0
	for i < len(a) && i < len(b) && a[i] == b[i] {
		i++
	}
	i = max(0, i-20)
	return fmt.Sprintf("(%d bytes, from byte %d) %s", len(a), i, a[i:min(len(a), i+100)])
}

// ---- programs of the language enumerations

const p21script = `
ENTRY(_start)
SECTIONS {
  . = 0x20000;
  .text : { *(.text .text.*) }
  . = ALIGN(65536);
  .rodata : { *(.rodata .rodata.* .srodata .srodata.*) }
  . = ALIGN(65536);
  .data : { *fdrv.o(.data .data.* .sdata .sdata.*) bdata_lo = .; *(.data .data.* .sdata .sdata.*) bdata_hi = .; }
  .bss : { *fdrv.o(.bss .bss.* .sbss .sbss.* COMMON) bbss_lo = .; *(.bss .bss.* .sbss .sbss.* COMMON) . = ALIGN(16); _end = .; }
  /DISCARD/ : { *(.eh_frame) *(.note*) }
}
`

func (p *p21) language() {
	c := p.c
	want := Pick(c, 700, 12000)
	var cases []*Case
	total := map[string]int{}
	several := map[*Case]bool{}
	c.walkCases(Pick(c, 250000, 1200000), []int{want}, func(id string, k int, cs *Case) {
		total[id]++
		cases = append(cases, cs)
		for _, f := range cs.Unit.Funcs {
			if len(f.Params) > 1 {
				several[cs] = true
			}
		}
	})
	c.Phase("collect")
	script := filepath.Join(c.Scratch, "p21.ld")
	mustWrite(script, []byte(p21script))
	drv := map[string]string{}
	for _, u := range p.cpus {
		o := filepath.Join(mkdir(filepath.Join(c.Scratch, "drv-"+u.name)), "fdrv.o")
		if r := p.clang(u, true, "-O1", "-ffreestanding", "-w", "-c", "-o", o, filepath.Join(c.Root, "cdrv/fdrv.c")); r.Code != 0 {
			fatal("fdrv: %s", r.Err)
		}
		drv[u.name] = o
	}
	var batches [][]*Case
	size := 150
	for lo := 0; lo < len(cases); lo += size {
		batches = append(batches, cases[lo:min(lo+size, len(cases))])
	}
	Parallel(len(cases), func(i int) {
		cases[i].explore()
		if len(cases[i].runs) > 1000 { // long enumerations are judged by their own checks
			cases[i].runs = cases[i].runs[:1000]
		}
		c.States.Add(cases[i].nodes)
		c.Transitions.Add(cases[i].nodes - 1)
	})
	c.Phase("explore")
	br := &batchRunner{c: c}
	levels := Pick(c, []int{0, 2}, []int{0, 1, 2, 3})
	try := func(b []*Case, u *cpu, level int) string {
		dir := c.Temp()
		defer os.RemoveAll(dir)
		var src bytes.Buffer
		for i, cs := range b {
			src.WriteString(cs.text(i))
		}
		src.WriteString("main(){return(xrun());}\n")
		f := filepath.Join(dir, "prog.b")
		mustWrite(f, src.Bytes())
		n := br.runsFile(filepath.Join(dir, "runs"), b)
		var t bytes.Buffer
		t.WriteString(".data\n.globl vtab\n.balign 64\nvtab:\n")
		for i, cs := range b {
			fmt.Fprintf(&t, ".quad \"b.%s\"\n", strings.ReplaceAll(cs.Entry, "#", fmt.Sprint(i)))
		}
		t.WriteString(".section .rodata\n.globl runs_data\n.balign 64\nruns_data:\n.incbin \"" + filepath.Join(dir, "runs") + "\"\n")
		mustWrite(filepath.Join(dir, "tab.s"), t.Bytes())
		if r := p.clang(u, false, "-c", "-o", filepath.Join(dir, "tab.o"), filepath.Join(dir, "tab.s")); r.Code != 0 {
			fatal("table: %s", r.Err)
		}
		ll, msg := p.emit(u, dir, f)
		if msg != "" {
			return msg
		}
		for _, plain := range []bool{false, true} {
			lib := u.lib[fmt.Sprint(p.libs[0], plain)]
			if lib == nil {
				if plain {
					c.Outcome("not decided: instructions unknown to the interpreter", 1)
					c.capped.Store(true)
				}
				return ""
			}
			o, exe := filepath.Join(dir, "prog.o"), filepath.Join(dir, "prog")
			if r := p.clang(u, plain, fmt.Sprintf("-O%d", level), "-c", "-o", o, ll); r.Code != 0 {
				return fmt.Sprintf("the intermediate code does not compile: %s", clip(r.Err))
			}
			args := append(append([]string{}, p.lld...), "-T", script, "-o", exe, drv[u.name], filepath.Join(dir, "tab.o"), o)
			if r := run(Cmd{Args: append(args, lib...)}); r.Code != 0 {
				return fmt.Sprintf("linking failed: %s", clip(r.Err))
			}
			r, note := p.emuRun(exe, 4e9, nil, 300*time.Second)
			if strings.HasPrefix(note, "UNKNOWN") {
				continue
			}
			if note == "" || r.Code == 126 {
				c.Outcome("not decided: the interpreter did not finish", 1)
				c.capped.Store(true)
				return ""
			}
			if strings.HasPrefix(note, "EXIT") && r.Code == 7 && string(r.Out) == fmt.Sprintf("DONE %d\n", n) && len(r.Err) == 0 {
				c.Traces.Add(int64(n))
				return ""
			}
			return fmt.Sprintf("%s: exit status %d, output %q (expected status 7, DONE %d)", note, r.Code, clip(r.Out), n)
		}
		return ""
	}
	type job struct {
		b     []*Case
		u     *cpu
		level int
	}
	var jobs []job
	for _, u := range p.cpus {
		for _, b := range batches {
			if !u.split {
				var l []*Case
				for _, cs := range b {
					if !several[cs] {
						l = append(l, cs)
					}
				}
				b = l
			}
			for _, lv := range levels {
				if len(b) > 0 {
					jobs = append(jobs, job{b, u, lv})
				}
			}
		}
	}
	var mu sync.Mutex
	reported := map[string]bool{}
	var decided atomic.Int64
	Parallel(len(jobs), func(i int) {
		j := jobs[i]
		if c.Stop() {
			return
		}
		msg := try(j.b, j.u, j.level)
		decided.Add(1)
		if msg == "" {
			return
		}
		mu.Lock()
		dup := reported[j.u.name]
		reported[j.u.name] = true
		mu.Unlock()
		if dup {
			return
		}
		// find a smallest group of programs that shows it
		cur := j.b
		for len(cur) > 1 {
			h := len(cur) / 2
			if try(cur[:h], j.u, j.level) != "" {
				cur = cur[:h]
			} else if try(cur[h:], j.u, j.level) != "" {
				cur = cur[h:]
			} else {
				break
			}
		}
		for k := 0; k < 3; k++ {
			if msg = try(cur, j.u, j.level); msg == "" {
				return
			}
		}
		var src bytes.Buffer
		for i, cs := range cur {
			src.WriteString(cs.text(i))
		}
		c.Violation("language:"+j.u.name+":"+cur[0].Key, fmt.Sprintf("on %s at -O%d: %s\nprogram:\n%s", j.u.name, j.level, msg, clip(src.Bytes())), map[string]string{"prog.b": src.String()})
	})
	c.Outcome("programs", int64(len(cases)))
	c.Outcome("batches built and run", decided.Load())
	c.Extra["programs per enumeration"] = total
	c.Extra["bounds"] = map[string]any{"processors": len(p.cpus), "levels": levels, "library levels": p.libs}
	for i := 0; i < len(cases); i += len(cases)/6 + 1 {
		c.Sample(map[string]any{"program": cases[i].text(0), "runs": len(cases[i].runs)})
	}
}
