package main

import (
	"bytes"
	"encoding/hex"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync/atomic"
	"time"
)

func init() { checks["P18"] = checkP18 }

type p18job struct {
	key                string
	status             int
	argc, envc, closed int
	in, out, err       []byte
	nodes              int64
}

func (j p18job) line() string {
	h := func(b []byte) string {
		if len(b) == 0 {
			return "-"
		}
		return hex.EncodeToString(b)
	}
	return fmt.Sprintf("%d %d %d %d %s %s %s\n", j.status, j.argc, j.envc, j.closed, h(j.in), h(j.out), h(j.err))
}

type p18build struct {
	level int
	debug bool
	via   string // "" direct, "-c", "-S", "--emit-llvm": through a file of that kind
}

func (b p18build) String() string {
	s := fmt.Sprintf("-O%d", b.level)
	if b.debug {
		s += " -g"
	}
	if b.via != "" {
		s += " through " + b.via
	}
	return s
}

// the commands the interpreter program understands; each is one character of input
const p18source = `
/* executes the commands of the input: output, calls, returns and exit at any depth */
lev; sum;
num(){auto n,c,s;s=1;c=read();if(c=='-'){s=0-1;c=read();}while(c>='0'){if(c>'9')return(n*s);n=n*10+c-'0';c=read();}return(n*s);}
two(a,b){return(a*10+b);}
quit(d){auto v[3];v[0]=d;if(d)return(quit(d-1)+v[0]);exit();printf("after exit*n");return(5);}
body(d){extrn lev,sum,fout;auto c,k,f;
 while((c=read())!=4){
  lev=lev+1;
  switch(c){
  case 'a': printf("A%d,%o;",lev,d);goto next;
  case 'b': write('xyz');goto next;
  case 'c': fout=1-fout;goto next;
  case 'e': nwrite(2,"err*n",4);goto next;
  case 'w': writeb(200+d);goto next;
  case 'f': flush();goto next;
  case 'g': sum=+body(d+1);goto next;
  case 'h': return(d*3+1);
  case 'x': exit();printf("after");goto next;
  case 'y': two(write('y'),exit(),write('z'));goto next;
  case 'z': f=quit;if(d>=0)while(1)f(d+2);goto next;
  case 's': printf("%d",quit(0)?exit():2);goto next;
  }
  printf("?");
  next: k=+1;
 }
 return(k*7+d);
}
main(){extrn sum;auto r;r=body(0);printf("end %d %d",r,sum);return(r+sum*3);}
`

type p18sim struct {
	in       []byte
	pos      int
	lev, sum int64
	fout     int
	out      [2]bytes.Buffer
	exited   bool
}

func (s *p18sim) read() byte {
	if s.pos >= len(s.in) {
		return 4
	}
	c := s.in[s.pos]
	s.pos++
	return c
}

func (s *p18sim) body(d int64) int64 {
	k := int64(0)
	for {
		c := s.read()
		if c == 4 {
			return k*7 + d
		}
		s.lev++
		o := &s.out[s.fout]
		switch c {
		case 'a':
			fmt.Fprintf(o, "A%d,%o;", s.lev, d)
		case 'b':
			o.WriteString("xyz")
		case 'c':
			s.fout = 1 - s.fout
		case 'e':
			s.out[1].WriteString("err\n")
		case 'w':
			o.WriteByte(byte(200 + d))
		case 'f':
		case 'g':
			v := s.body(d + 1)
			if s.exited {
				return 0
			}
			s.sum += v
		case 'h':
			return d*3 + 1
		case 'x', 'z', 's':
			s.exited = true
			return 0
		case 'y':
			o.WriteString("y")
			s.exited = true
			return 0
		default:
			o.WriteString("?")
		}
		k++
	}
}

func p18run(in []byte) p18job {
	s := &p18sim{in: in}
	r := s.body(0)
	j := p18job{key: "commands " + string(in), in: append([]byte(nil), in...), nodes: int64(len(in)) + 1}
	if s.exited {
		j.status = 0
	} else {
		fmt.Fprintf(&s.out[s.fout], "end %d %d", r, s.sum)
		j.status = int(uint8(r + s.sum*3))
	}
	j.out, j.err = append([]byte(nil), s.out[0].Bytes()...), append([]byte(nil), s.out[1].Bytes()...)
	return j
}

func checkP18(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "states: states of a reference machine that interprets command sequences (depth, output so far, ended or not); every sequence is given to executables linked by the compiler with the product's own entry point, at every optimization level; the exit status and the bytes on both streams are compared. Also: every status value of the bound, every shape of main, every number of arguments and environment variables and every set of closed descriptors, with the stack alignment measured at every call"
	c.Assumptions = []string{"x86_64 Linux: the other systems cannot be run here"}
	home := mkdir(filepath.Join(c.Scratch, "home"))
	mkdir(filepath.Join(home, ".local/lib"))
	if r := run(Cmd{Args: []string{"cp", filepath.Join(c.LibDir, "libb.a"), filepath.Join(home, ".local/lib/libb.a")}}); r.Code != 0 {
		fatal("cp: %s", r.Err)
	}
	env := append(c.env(), "HOME="+home)
	xr := filepath.Join(c.Scratch, "xrun")
	if r := run(Cmd{Args: []string{"clang", "-O1", "-w", "-o", xr, filepath.Join(c.Root, "cdrv/xrun.c")}}); r.Code != 0 {
		fatal("xrun: %s", r.Err)
	}
	algn := filepath.Join(c.Scratch, "algn.o")
	mustWrite(filepath.Join(c.Scratch, "algn.c"), []byte(`
typedef long word;
word algn(word v, ...) __asm__("b.algn");
__attribute__((noinline)) word algn(word v, ...) { return ((word)__builtin_frame_address(0)) & 15; }
word vecs(word v, ...) __asm__("b.vecs");
/* aligned vector moves fault on a misaligned stack */
__attribute__((noinline)) word vecs(word v, ...) {
    typedef float f4 __attribute__((vector_size(16)));
    volatile f4 x = { v, v, v, v };
    __asm__ volatile("movaps %%xmm0, %0" : "=m"(*(f4 *)&x) : : "xmm0");
    return v;
}
word far(word v, ...) __asm__("b.far");
/* uses the whole red zone and more below the stack pointer of its caller */
__attribute__((noinline)) word far(word v, ...) { volatile char b[4096]; for (int i = 0; i < 4096; i++) b[i] = v; return b[v & 4095]; }
`))
	if r := run(Cmd{Args: []string{"clang", "-O1", "-fno-omit-frame-pointer", "-ffreestanding", "-fno-stack-protector", "-w", "-c", "-o", algn, filepath.Join(c.Scratch, "algn.c")}}); r.Code != 0 {
		fatal("algn: %s", r.Err)
	}
	builds := []p18build{}
	for lv := 0; lv < 4; lv++ {
		for _, g := range []bool{false, true} {
			for _, via := range []string{"", "-c", "-S", "--emit-llvm"} {
				if via == "" || !g && (c.Thorough() || lv == 0 || lv == 2) {
					builds = append(builds, p18build{lv, g, via})
				}
			}
		}
	}
	link := func(src string, b p18build, extra ...string) (exe, msg string) {
		d := c.Temp()
		mustWrite(filepath.Join(d, "p.b"), []byte(src))
		a := []string{c.Blang, fmt.Sprintf("-O%d", b.level)}
		if b.debug {
			a = append(a, "-g")
		}
		in := "p.b"
		if b.via != "" {
			in = map[string]string{"-c": "q.o", "-S": "q.s", "--emit-llvm": "q.ll"}[b.via]
			r := run(Cmd{Dir: d, Env: env, Args: limited(100, append(append([]string(nil), a...), b.via, "-o", in, "p.b")...), Timeout: 300 * time.Second})
			if r.Code != 0 {
				return "", fmt.Sprintf("%s: status %d %s", b, r.Code, clip(r.Err))
			}
		}
		a = append(append(a, "-o", "x", in), extra...)
		r := run(Cmd{Dir: d, Env: env, Args: limited(100, a...), Timeout: 300 * time.Second})
		if r.Code != 0 {
			return "", fmt.Sprintf("%s: status %d %s", b, r.Code, clip(r.Err))
		}
		return filepath.Join(d, "x"), ""
	}
	var runs atomic.Int64
	type outcome struct {
		job  p18job
		text string
	}
	exec1 := func(exe string, jobs []p18job, parts int) []outcome {
		f := filepath.Join(filepath.Dir(exe), fmt.Sprintf("jobs%d", tmpSeq.Add(1)))
		var b bytes.Buffer
		for _, j := range jobs {
			b.WriteString(j.line())
		}
		mustWrite(f, b.Bytes())
		defer os.Remove(f)
		res := make([][]outcome, parts)
		Parallel(parts, func(i int) {
			if c.Stop() {
				return
			}
			r := run(Cmd{Dir: filepath.Dir(exe), Args: []string{xr, exe, f, strconv.Itoa(i), strconv.Itoa(parts)}, Timeout: time.Until(c.Deadline) + 60*time.Second})
			ok := false
			for _, l := range strings.Split(string(r.Out), "\n") {
				if strings.HasPrefix(l, "BAD ") {
					k, t, _ := strings.Cut(l[4:], " ")
					n, _ := strconv.Atoi(k)
					res[i] = append(res[i], outcome{jobs[n], t})
				}
				if n, err := strconv.Atoi(strings.TrimPrefix(l, "DONE ")); err == nil && strings.HasPrefix(l, "DONE ") {
					ok = true
					runs.Add(int64(n))
				}
			}
			if !ok && !c.Stop() {
				fatal("xrun: status %d %s %s", r.Code, clip(r.Out), clip(r.Err))
			}
		})
		var all []outcome
		for _, r := range res {
			all = append(all, r...)
		}
		for _, j := range jobs {
			c.States.Add(j.nodes)
			c.Transitions.Add(j.nodes - 1) // a path of n states has n-1 steps
			c.Traces.Add(1)
		}
		return all
	}
	report := func(name, src string, b p18build, exe string, bads []outcome) {
		for _, o := range bads {
			again := exec1(exe, []p18job{o.job}, 1)
			if len(again) == 0 {
				continue
			}
			c.Violation("run:"+name, fmt.Sprintf("program %q built %s, run with %q, %d arguments, %d environment variables, closed descriptors %03b: %s\n%s", name, b, o.job.in, o.job.argc, o.job.envc, o.job.closed, again[0].text, src),
				map[string]string{"program.b": src, "stdin": string(o.job.in)})
			return
		}
	}
	// all sequences of commands
	const alpha = "abcewfghxyzs"
	var jobs []p18job
	var gen func(cur []byte, max int, letters string)
	gen = func(cur []byte, max int, letters string) {
		jobs = append(jobs, p18run(cur))
		if len(cur) == max {
			return
		}
		for i := 0; i < len(letters); i++ {
			gen(append(cur, letters[i]), max, letters)
		}
	}
	gen(nil, Pick(c, 3, 4), alpha)
	short := len(jobs)
	// deep recursion, then every way to end
	for _, n := range []int{10, 100, 1000, 5000} {
		for _, e := range []string{"", "x", "y", "z", "s", "h", "hh", "a", "hx", "bx"} {
			jobs = append(jobs, p18run([]byte("ab"+strings.Repeat("g", n)+"a"+e)))
			jobs = append(jobs, p18run([]byte(strings.Repeat("cg", n)+"w"+e)))
			jobs = append(jobs, p18run([]byte(strings.Repeat("ag", n/10)+strings.Repeat("h", n/20)+"e"+e)))
		}
	}
	// long outputs before the end
	for _, e := range []string{"", "x", "y", "z"} {
		jobs = append(jobs, p18run([]byte(strings.Repeat("abw", 3000)+e)), p18run([]byte(strings.Repeat("cabew", 2000)+e)))
	}
	for i, b := range builds {
		if c.Stop() {
			break
		}
		exe, m := link(p18source, b)
		if m != "" {
			c.Violation("build:commands", m, map[string]string{"program.b": p18source})
			continue
		}
		report("commands", p18source, b, exe, exec1(exe, jobs, 16))
		if i == 0 {
			for _, j := range []int{short / 3, short / 2, len(jobs) - 1} {
				c.Sample(map[string]any{"commands": string(clip(jobs[j].in)), "status": jobs[j].status})
			}
		}
	}
	c.Outcome("command sequences", int64(len(jobs)))
	c.Phase("commands")
	jobs = nil
	gen(nil, Pick(c, 6, 8), "acghxy")
	gen(nil, Pick(c, 4, 5), alpha)
	for _, b := range []p18build{{0, false, ""}, {2, false, ""}} {
		exe, m := link(p18source, b)
		if m == "" && !c.Stop() {
			report("commands", p18source, b, exe, exec1(exe, jobs, 16))
		}
	}
	c.Outcome("long command sequences", int64(len(jobs)))
	c.Phase("long commands")
	// every status
	jobs = nil
	var vals []int64
	for v := int64(-Pick(c, 600, 40000)); v <= int64(Pick(c, 1200, 70000)); v++ {
		vals = append(vals, v)
	}
	for _, v := range boundary() {
		vals = append(vals, v)
	}
	for k := 8; k < 63; k++ {
		for _, d := range []int64{-255, -1, 0, 1, 42, 255} {
			vals = append(vals, 1<<uint(k)+d, -(1<<uint(k))+d)
		}
	}
	for _, v := range vals {
		if v == -1<<63 {
			continue // its digits are not a number the program can read
		}
		jobs = append(jobs, p18job{key: fmt.Sprint(v), status: int(uint8(v)), in: []byte(fmt.Sprint(v)), nodes: 2})
	}
	const num = "num(){auto n,c,s;s=1;c=read();if(c=='-'){s=0-1;c=read();}while(c!=4){n=n*10+c-'0';c=read();}return(n*s);}\n"
	mains := []string{
		"main(){return(num());}",
		"main(){auto v[5],r;v[0]=num();r=v;return(*r);}",
		"main(){extrn g;g=num();if(g<0)return(g);while(g)return(g);return(0);}g;",
		"main(){auto a,b;a=b=num();switch(a){case 0:return(b);}goto l;return(77);l:return(a);}",
		"f(n){if(n==0)return(num());return(f(n-1));}main()return(f(20));",
	}
	for mi, mn := range mains {
		for bi, b := range builds {
			if c.Stop() || mi > 0 && bi%3 != mi%3 && !c.Thorough() {
				continue
			}
			exe, m := link(num+mn, b)
			if m != "" {
				c.Violation("build:status", m, map[string]string{"program.b": num + mn})
				continue
			}
			report("status: "+mn, num+mn, b, exe, exec1(exe, jobs, 8))
		}
	}
	c.Outcome("status values", int64(len(jobs)))
	c.Phase("statuses")
	// every shape of main, arguments, environments and descriptors
	type shape struct {
		name, src string
		status    int
		out, err  string
	}
	shapes := []shape{
		{"empty", "main(){}", 0, "", ""},
		{"null", "main();", 0, "", ""},
		{"return", "main(){return;}", 0, "", ""},
		{"return 0", "main(){return(0);}", 0, "", ""},
		{"exit", "main(){exit();}", 0, "", ""},
		{"exit alone", "main()exit();", 0, "", ""},
		{"exit then return", "main(){exit();return(9);}", 0, "", ""},
		{"exit in condition", "main(){if(exit())return(3);return(4);}", 0, "", ""},
		{"exit in return", "main(){return(exit()+6);}", 0, "", ""},
		{"exit in while", "main(){while(1)exit();}", 0, "", ""},
		{"exit in switch", "main(){switch(exit()){case 0:return(8);}return(9);}", 0, "", ""},
		{"exit in index", "main(){auto v[2];v[exit()]=exit();return(2);}", 0, "", ""},
		{"exit as a value", "main(){auto e;e=exit;e();return(2);}", 0, "", ""},
		{"exit in an argument", "main(){printf(\"%d\",exit());return(2);}", 0, "", ""},
		{"exit before output", "main(){exit();printf(\"no\");}", 0, "", ""},
		{"output then exit", "main(){extrn fout;printf(\"yes%d*n\",-5);fout=1;write('no');exit();}", 0, "yes-5\n", "no"},
		{"output then falls off", "main(){printf(\"yes\");}", 0, "yes", ""},
		{"output in return", "main(){return(printf(\"in\")*0+5);}", 5, "in", ""},
		{"value of the last expression is not returned", "main(){auto x;x=55;x+3;}", 0, "", ""},
		{"call result is not returned", "f(){return(66);}main(){f();}", 0, "", ""},
		{"label at the end", "main(){goto e;return(1);e:;}", 0, "", ""},
		{"nested return", "main(){if(0)return(1);else return(2);}", 2, "", ""},
		{"extern", "main(){extrn x;return(x);}x 300;", 44, "", ""},
		{"main last", "f(){return(7);}x 3;main(){extrn x;return(f()+x);}", 10, "", ""},
		{"main calls itself", "n;main(){extrn n;if(n++<5)return(main()+1);return(20);}", 25, "", ""},
	}
	// alignment: number of autos, vectors, arguments, depth
	for n := 0; n <= 9; n++ {
		names := []string{}
		for i := 0; i < n; i++ {
			names = append(names, fmt.Sprintf("a%d", i))
		}
		auto := ""
		if n > 0 {
			auto = "auto " + strings.Join(names, ",") + ";"
			for i, s := range names {
				auto += fmt.Sprintf("%s=algn(%d);", s, i)
			}
		}
		sum := strings.Join(append(names, "algn(0)"), "|")
		shapes = append(shapes,
			shape{fmt.Sprintf("%d autos", n), "main(){" + auto + "vecs(3);far(9);return(" + sum + ");}", 0, "", ""},
			shape{fmt.Sprintf("vector of %d", n), fmt.Sprintf("main(){auto v[%d],i;v[0]=algn(1);vecs(2);i=far(3);return(v[0]|algn(4));}", n), 0, "", ""},
			shape{fmt.Sprintf("depth %d", n), fmt.Sprintf("f(n,a){auto v[%d];vecs(n);v[0]=algn(n);if(n==0)return(v[0]);return(v[0]|f(n-1,a));}main(){return(f(%d,1));}", n, n*3+1), 0, "", ""})
	}
	for n := 0; n <= 14; n++ {
		var as []string
		for i := 0; i < n; i++ {
			as = append(as, strconv.Itoa(i+1))
		}
		l := strings.Join(as, ",")
		shapes = append(shapes, shape{fmt.Sprintf("%d arguments", n), fmt.Sprintf("f(a,b,d){vecs(1);return(algn(%s));}main(){return(algn(%s)|f(%s)|algn(vecs(%s)&algn(%s)));}", l, l, l, l, l), 0, "", ""})
	}
	shapes = append(shapes, shape{"alignment without anything else", "main(){return(algn());}", 0, "", ""}, shape{"alignment in a tail call", "main()return(algn());", 0, "", ""},
		shape{"vector moves in main's callee", "f()vecs(1);main(){f();}", 0, "", ""})
	var full []p18job
	for argc := 0; argc <= 5; argc++ {
		for envc := 0; envc <= 4; envc++ {
			full = append(full, p18job{argc: argc, envc: envc, nodes: 2})
		}
	}
	for cl := 1; cl < 8; cl++ {
		full = append(full, p18job{closed: cl, nodes: 2})
	}
	full = append(full, p18job{argc: 30, envc: 30, nodes: 2}, p18job{argc: 29, envc: 30, nodes: 2})
	var sb []p18build
	for lv := 0; lv < 4; lv++ {
		sb = append(sb, p18build{level: lv})
	}
	if c.Thorough() {
		sb = builds
	}
	var links atomic.Int64
	Parallel(len(shapes)*len(sb), func(i int) {
		if c.Stop() {
			return
		}
		s, b := shapes[i/len(sb)], sb[i%len(sb)]
		exe, m := link(s.src, b, algn)
		if m != "" {
			c.Violation("build:"+s.name, m, map[string]string{"program.b": s.src})
			return
		}
		links.Add(1)
		var js []p18job
		for _, j := range full {
			j.key, j.status, j.out, j.err = s.name, s.status, []byte(s.out), []byte(s.err)
			js = append(js, j)
		}
		report(s.name, s.src, b, exe, exec1(exe, js, 1))
		os.RemoveAll(filepath.Dir(exe))
	})
	c.Outcome("shapes of main", int64(len(shapes)))
	c.Outcome("executables of shapes", links.Load())
	c.Outcome("runs of executables", runs.Load())
	c.Phase("shapes")
	c.Extra["bounds"] = map[string]any{"commands": Pick(c, 3, 4), "commands of the short alphabet": Pick(c, 6, 8), "commands at -O0 and -O2": Pick(c, 4, 5), "recursion depth": 5000, "argc": 5, "environment": 4}
}
