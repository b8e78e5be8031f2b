package main

import (
	"bytes"
	"fmt"
	"os"
	"path/filepath"
	"regexp"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

func init() { checks["P12"] = checkP12 }

type p12cmd struct {
	args  string
	files map[string]string
	paths []string // files of the command whose system calls are made to fail
	save  bool
}

// p12point is one fault: the k-th call of sys on path fails with err.
type p12point struct {
	cmd  *p12cmd
	path string
	sys  string
	k    int
	err  string
}

func checkP12(c *Ctx) {
	c.Level = "fault_enumeration"
	c.Rule = "evaluations: runs with one injected fault each. In process: a read error (permanent, transient, or followed by the end of the file) at every byte offset of every source of the corpus. On the real command: every open, read, write, close, stat and rename call on a source, output or intermediate file and every start of the tool chain is made to fail in turn, found by tracing the fault-free run; then the command is repeated without the fault. distinct_nontrivial: distinct (command, file, system call, occurrence, error) and (source, offset, kind) whose fault was really delivered"
	c.p12reads()
	c.p12calls()
	c.p12tool()
}

// p12reads injects read errors at every byte of every source.
func (c *Ctx) p12reads() {
	if !c.WorkerOK {
		return
	}
	pool := c.NewPool()
	defer pool.Close()
	names, srcs := c.corpus()
	type it struct {
		src  int
		at   int
		kind byte
	}
	extra := []string{"", "x;", "f(){}", "f(){return(1);}\n", "a 1,2;b[3]4;f(x){auto y;y=x;return(y);}", "f(){g(\"abc\",'d*n');}/* end */", "/* only */", "f()\n{\n\treturn(0);\n}\n\n\n", "f(){if(x)y();else z();}", "f(){switch(1){case 1:;case 'a':;}}"}
	for i, s := range extra {
		names = append(names, fmt.Sprintf("small%d", i))
		srcs = append(srcs, s)
	}
	ok := make([]bool, len(srcs))
	for i, s := range srcs {
		ok[i] = pool.One(Req{Mode: 'V', FailAt: -1, Files: [][]byte{[]byte(s)}}).St == 'A'
	}
	var inj, miss atomic.Int64
	Stream(c, pool, func(y func(it) bool) {
		for i, s := range srcs {
			step := 1
			if len(s) > 3000 {
				step = Pick(c, 3, 1)
			}
			for _, k := range []byte("pte") {
				for at := 0; at <= len(s); at += step {
					if !y(it{i, at, k}) {
						return
					}
				}
			}
		}
	}, func(t it) Req {
		return Req{Mode: 'V', Kind: t.kind, FailAt: t.at, Files: [][]byte{[]byte(srcs[t.src])}}
	}, func(t it, v Verdict) {
		c.Evals.Add(1)
		if !v.Inj {
			miss.Add(1)
			return
		}
		inj.Add(1)
		c.Distinct.Add(1)
		if t.at%500 == 250 {
			c.Sample(map[string]any{"source": names[t.src], "read error at byte": t.at, "kind": string(t.kind), "answer": clip([]byte(v.Out))})
		}
		if v.St == 'R' && v.Out != "" {
			return
		}
		for k := 0; k < 3; k++ {
			v = pool.One(Req{Mode: 'V', Kind: t.kind, FailAt: t.at, Files: [][]byte{[]byte(srcs[t.src])}})
			if !v.Inj || v.St == 'R' && v.Out != "" {
				return
			}
		}
		what := map[byte]string{'A': "accepted", 'P': "panic", 'H': "endless reading", 'T': "no answer in time", 'K': "process died", 'R': "rejected without a message"}[v.St]
		c.Violation(fmt.Sprintf("read:%s:%c", names[t.src], t.kind), fmt.Sprintf("source %s, read error at byte %d (kind %c: p permanent, t transient, e then end of file): %s\n%s", names[t.src], t.at, t.kind, what, clip([]byte(v.Out))), map[string]string{"source.b": srcs[t.src]})
	})
	c.Outcome("read errors delivered", inj.Load())
	c.Outcome("read errors not reached", miss.Load())
	c.Phase("reads")
}

var injected = regexp.MustCompile(`(?m)\(INJECTED\)`)

type p12res struct {
	Result
	files map[string]string
	trace string
	ok    bool
}

func (c *Ctx) p12snapshot(dir string) map[string]string {
	m := map[string]string{}
	filepath.Walk(dir, func(p string, fi os.FileInfo, err error) error {
		if err == nil && fi.Mode().IsRegular() {
			b, _ := os.ReadFile(p)
			rel, _ := filepath.Rel(dir, p)
			m[rel] = string(b)
		}
		return nil
	})
	return m
}

// p12exec runs the command in cwd under strace, with an injection or none.
func (c *Ctx) p12exec(base, cwd string, cmd *p12cmd, tool, inject, path, trace string) p12res {
	tr := filepath.Join(base, "trace")
	os.Remove(tr)
	os.Remove(filepath.Join(base, "log"))
	env := []string{"PATH=" + tool, "HOME=" + base, "FCLANG_LOG=" + filepath.Join(base, "log"), "GOMAXPROCS=1", "TMPDIR=" + base}
	args := []string{c.Blang}
	args = append(args, strings.Fields(cmd.args)...)
	if trace != "" {
		st := []string{"/usr/bin/strace", "-f", "-o", tr, "-e", "trace=" + trace}
		if path != "" {
			st = append(st, "-P", path)
			if rel, err := filepath.Rel(cwd, path); err == nil && !strings.HasPrefix(rel, "..") {
				st = append(st, "-P", rel)
			}
		} else {
			for _, p := range cmd.paths {
				st = append(st, "-P", filepath.Join(cwd, p), "-P", p)
			}
			st = append(st, "-P", filepath.Join(tool, "clang"))
		}
		if inject != "" {
			st = append(st, "-e", "inject="+inject)
		}
		args = append(append(st, "--"), args...)
	}
	r := run(Cmd{Dir: cwd, Env: env, Args: args, Timeout: 120 * time.Second})
	b, _ := os.ReadFile(tr)
	return p12res{Result: r, files: c.p12snapshot(cwd), trace: string(b)}
}

const p12trace = "open,openat,creat,read,pread64,readv,write,pwrite64,writev,close,fsync,fdatasync,rename,renameat,renameat2,link,linkat,ftruncate,newfstatat,fstat,stat,lstat,statx,execve,copy_file_range,sendfile"

func (c *Ctx) p12setup(cmd *p12cmd) (base, cwd string) {
	base = c.Temp()
	if r, err := filepath.EvalSymlinks(base); err == nil {
		base = r
	}
	cwd = mkdir(filepath.Join(base, "w"))
	mkdir(filepath.Join(cwd, "d"))
	for f, s := range cmd.files {
		mustWrite(filepath.Join(cwd, f), []byte(s))
	}
	return
}

func same(a, b map[string]string) string {
	var d []string
	for k, v := range a {
		if w, ok := b[k]; !ok {
			d = append(d, k+" is missing")
		} else if v != w {
			d = append(d, fmt.Sprintf("%s differs (%d bytes instead of %d)", k, len(w), len(v)))
		}
	}
	for k := range b {
		if _, ok := a[k]; !ok {
			d = append(d, k+" should not be there")
		}
	}
	sort.Strings(d)
	return strings.Join(d, "; ")
}

func (c *Ctx) p12tooldir() string {
	tool := mkdir(filepath.Join(c.Scratch, "tool"))
	if r, err := filepath.EvalSymlinks(tool); err == nil {
		tool = r
	}
	if r := run(Cmd{Args: []string{"clang", "-O1", "-static", "-w", "-o", filepath.Join(tool, "clang"), filepath.Join(c.Root, "cdrv/fclang.c")}}); r.Code != 0 {
		fatal("fclang: %s", r.Err)
	}
	return tool
}

func p12cmds(thorough bool) []*p12cmd {
	a := "main(){extrn v;v=1;return(f(v));}\n"
	b := "v 2;f(x){return(x+41);}\n"
	var big strings.Builder
	for i := 0; i < 400; i++ {
		fmt.Fprintf(&big, "f%d(x){return(x+%d);}\n", i, i)
	}
	fx := map[string]string{"a.b": a, "f.b": b, "x.ll": "; m\n", "y.s": "# s\n", "z.o": "o\n"}
	var l []*p12cmd
	add := func(args string, files map[string]string, paths ...string) {
		l = append(l, &p12cmd{args: args, files: files, paths: paths, save: strings.Contains(args, "--save-temps")})
	}
	for _, s := range []string{"", "--save-temps "} {
		add(s+"--emit-llvm a.b", fx, "a.b", "a.ll")
		add(s+"--emit-llvm a.b f.b", fx, "a.b", "a.ll", "f.b", "f.ll")
		add(s+"--emit-llvm -o d/o a.b", fx, "a.b", "d/o")
		add(s+"-S a.b", fx, "a.b", "a.s", "a.s.tmp.ll")
		add(s+"-S a.b x.ll f.b", fx, "a.b", "a.s", "a.s.tmp.ll", "x.ll", "x.s", "f.b", "f.s", "f.s.tmp.ll")
		add(s+"-S a.b -o d/o", fx, "a.b", "d/o", "d/o.tmp.ll")
		add(s+"-c a.b", fx, "a.b", "a.o", "a.o.tmp.ll")
		add(s+"-c f.b y.s a.b", fx, "f.b", "f.o", "f.o.tmp.ll", "y.s", "y.o", "a.b", "a.o", "a.o.tmp.ll")
		add(s+"-c a.b -o d/o", fx, "a.b", "d/o", "d/o.tmp.ll")
		add(s+"a.b", fx, "a.b", "a", "a.tmp.ll")
		add(s+"a.b -o x", fx, "a.b", "x", "x.tmp.ll")
		add(s+"a.b f.b -o x", fx, "a.b", "f.b", "x", "x.tmp.0.ll", "x.tmp.1.ll")
		add(s+"z.o a.b x.ll f.b", fx, "z.o", "a.b", "f.b", "z", "x.ll", "z.tmp.1.ll", "z.tmp.3.ll")
	}
	if thorough {
		add("--emit-llvm big.b a.b", map[string]string{"big.b": big.String(), "a.b": a}, "big.ll", "a.b", "a.ll")
		add("big.b f.b -o x", map[string]string{"big.b": big.String(), "f.b": b}, "x.tmp.0.ll", "f.b", "x.tmp.1.ll")
	}
	return l
}

func (c *Ctx) p12calls() {
	tool := c.p12tooldir()
	cmds := p12cmds(c.Thorough())
	// is strace usable here?
	base, cwd := c.p12setup(cmds[0])
	probe := c.p12exec(base, cwd, cmds[0], tool, "", "", p12trace)
	if probe.Code != 0 || !strings.Contains(probe.trace, "openat(") {
		c.Extra["system call faults"] = "not run: strace is not usable here"
		return
	}
	// fault-free runs: results and the calls that can fail
	type clean struct {
		res    p12res
		points []p12point
	}
	cl := make([]clean, len(cmds))
	callRe := regexp.MustCompile(`^(\d+)\s+([a-z0-9_]+)\((.*)`)
	Parallel(len(cmds), func(i int) {
		cmd := cmds[i]
		base, cwd := c.p12setup(cmd)
		defer os.RemoveAll(base)
		cl[i].res = c.p12exec(base, cwd, cmd, tool, "", "", "")
		paths := append([]string{}, cmd.paths...)
		for _, p := range paths {
			os.RemoveAll(cwd)
			mkdir(filepath.Join(cwd, "d"))
			for f, s := range cmd.files {
				mustWrite(filepath.Join(cwd, f), []byte(s))
			}
			r := c.p12exec(base, cwd, cmd, tool, "", filepath.Join(cwd, p), p12trace)
			n := map[string]int{}
			for _, l := range strings.Split(r.trace, "\n") {
				if m := callRe.FindStringSubmatch(l); m != nil && m[2] != "execve" {
					n[m[2]]++
				}
			}
			for sys, cnt := range n {
				if strings.HasPrefix(sys, "read") && cnt > 70 {
					cnt = Pick(c, 70, 400)
				}
				errs := map[string][]string{"openat": {"EACCES", "EMFILE", "ENOSPC"}, "open": {"EACCES", "EMFILE"}, "read": {"EIO"}, "write": {"ENOSPC", "EIO"}, "close": {"EIO", "ENOSPC"}, "newfstatat": {"EIO"}, "statx": {"EIO"}}[sys]
				if errs == nil {
					errs = []string{"EIO"}
				}
				for _, e := range errs {
					for k := 1; k <= cnt; k++ {
						cl[i].points = append(cl[i].points, p12point{cmd, p, sys, k, e})
					}
				}
			}
		}
		for _, e := range []string{"EACCES", "ENOENT", "ENOMEM", "ENOEXEC"} {
			for k := 1; k <= 1; k++ {
				cl[i].points = append(cl[i].points, p12point{cmd, "clang", "execve", k, e})
			}
		}
	})
	var points []p12point
	ref := map[*p12cmd]p12res{}
	for i := range cl {
		if cl[i].res.Code != 0 {
			c.Violation("clean:"+cmds[i].args, fmt.Sprintf("blang %s fails without a fault: status %d\n%s", cmds[i].args, cl[i].res.Code, clip(cl[i].res.Err)), nil)
			return
		}
		ref[cmds[i]] = cl[i].res
		points = append(points, cl[i].points...)
	}
	c.Extra["bounds"] = map[string]any{"commands": len(cmds), "fault points on the real command": len(points)}
	c.Phase("fault-free runs")
	var mu sync.Mutex
	bySys := map[string]int64{}
	check := func(p p12point) (msg string, delivered bool) {
		base, cwd := c.p12setup(p.cmd)
		defer os.RemoveAll(base)
		path := filepath.Join(cwd, p.path)
		if p.sys == "execve" {
			path = filepath.Join(tool, "clang")
		}
		r := c.p12exec(base, cwd, p.cmd, tool, fmt.Sprintf("%s:error=%s:when=%d", p.sys, p.err, p.k), path, p.sys)
		if !injected.MatchString(r.trace) || r.Code == -3 || r.Code == -2 {
			return "", false
		}
		clean := ref[p.cmd]
		var errs []string
		bad := func(f string, a ...any) { errs = append(errs, fmt.Sprintf(f, a...)) }
		_, isInput := p.cmd.files[p.path]
		// a fault of these calls must be reported; others (stat, close of an input) may be harmless
		must := p.sys == "execve" || strings.HasPrefix(p.sys, "open") || p.sys == "creat" || strings.HasPrefix(p.sys, "write") || strings.HasPrefix(p.sys, "pwrite") ||
			strings.HasPrefix(p.sys, "read") && isInput || p.sys == "close" && !isInput || strings.HasPrefix(p.sys, "rename") || strings.HasPrefix(p.sys, "link") || strings.HasSuffix(p.sys, "sync")
		if p.sys == "close" && !isInput && p.k > 1 {
			must = false // the tool chain's own
		}
		if strings.HasPrefix(p.sys, "open") && !isInput && p.k > 1 {
			must = false
		}
		if strings.HasSuffix(p.path, ".tmp.ll") && strings.HasPrefix(p.sys, "read") {
			must = true
		}
		if r.Code == 0 {
			if d := same(clean.files, r.files); d != "" {
				bad("exit status 0, but %s", d)
			} else if must {
				bad("exit status 0 although the call failed")
			}
		} else {
			if len(bytes.TrimSpace(r.Err)) == 0 {
				bad("failed without a message")
			}
			if r.Code < 0 || r.Code > 127 || strings.Contains(string(r.Err), "goroutine ") {
				bad("ended abnormally: status %d %s %s", r.Code, r.Signal, clip(r.Err))
			}
			for f, s := range r.files {
				want, inClean := clean.files[f]
				src, isIn := p.cmd.files[f]
				switch {
				case isIn:
					if s != src {
						bad("input %s was changed", f)
					}
				case strings.Contains(f, ".tmp."):
					if !p.cmd.save {
						bad("intermediate file %s was left behind", f)
					}
				case strings.HasSuffix(f, ".ll") || strings.Contains(p.cmd.args, "--emit-llvm"):
					if s != want {
						bad("a truncated intermediate-code file %s (%d of %d bytes) was left behind", f, len(s), len(want))
					}
				case !inClean:
					bad("unexpected file %s", f)
				}
			}
			for f, s := range p.cmd.files {
				if r.files[f] != s {
					bad("input %s was changed or removed", f)
				}
			}
			// results of inputs before the failing one
			if fl := strings.Fields(p.cmd.args); strings.HasPrefix(p.cmd.args, "-S ") || strings.HasPrefix(p.cmd.args, "-c ") || strings.HasPrefix(p.cmd.args, "--emit-llvm ") {
				if fl[len(fl)-2] != "-o" && p.sys != "execve" && !strings.HasSuffix(p.sys, "stat") && !strings.HasSuffix(p.sys, "statat") && p.sys != "statx" {
					for _, in := range fl[1:] {
						st := stem(in)
						if strings.HasPrefix(p.path, st+".") {
							break
						}
						out := st + map[string]string{"-S": ".s", "-c": ".o", "--emit-llvm": ".ll"}[fl[0]]
						if want, ok := clean.files[out]; ok && r.files[out] != want {
							bad("the result %s of an earlier input is missing or damaged", out)
						}
					}
				}
			}
		}
		// the same command again, without the fault
		r2 := c.p12exec(base, cwd, p.cmd, tool, "", "", "")
		if r2.Code != 0 {
			bad("repeated without the fault: status %d %s", r2.Code, clip(r2.Err))
		} else if d := same(clean.files, r2.files); d != "" && !(p.cmd.save) {
			bad("repeated without the fault: %s", d)
		}
		return strings.Join(errs, "\n"), true
	}
	Parallel(len(points), func(i int) {
		if c.Stop() {
			return
		}
		p := points[i]
		c.Evals.Add(1)
		msg, del := check(p)
		if del {
			c.Distinct.Add(1)
			mu.Lock()
			bySys[p.sys]++
			mu.Unlock()
		}
		if i%(len(points)/5+1) == 3 {
			c.Sample(map[string]any{"command": "blang " + p.cmd.args, "fault": fmt.Sprintf("%s number %d on %s: %s", p.sys, p.k, p.path, p.err), "delivered": del})
		}
		if msg == "" {
			return
		}
		for k := 0; k < 3; k++ {
			m, d := check(p)
			if !d || m == "" {
				return
			}
			msg = m
		}
		c.Violation(fmt.Sprintf("call:%s:%s:%s", p.cmd.args, p.path, p.sys), fmt.Sprintf("blang %s\n%s number %d on %s fails with %s\n%s", p.cmd.args, p.sys, p.k, p.path, p.err, msg), nil)
	})
	for k, n := range bySys {
		c.Outcome("faults delivered to "+k, n)
	}
	c.Phase("system call faults")
}

// p12tool: every run of the tool chain fails in turn, then the command is
// repeated; also failures of one source among several.
func (c *Ctx) p12tool() {
	tool := filepath.Join(c.Scratch, "tool")
	type tj struct {
		cmd  *p12cmd
		fail int
		how  string
		bad  string // source with an error
	}
	var jobs []tj
	for _, cmd := range p12cmds(false) {
		n := 0
		for _, f := range strings.Fields(cmd.args) {
			if f != "--save-temps" && strings.Contains(f, ".") {
				n++
			}
			if strings.HasSuffix(f, ".b") {
				jobs = append(jobs, tj{cmd, 0, "", f})
			}
		}
		for k := 1; k <= n; k++ {
			for _, how := range []string{"exit", "signal"} {
				jobs = append(jobs, tj{cmd, k, how, ""})
			}
		}
		jobs = append(jobs, tj{cmd, 0, "absent", ""})
	}
	check := func(j tj) string {
		base, cwd := c.p12setup(j.cmd)
		defer os.RemoveAll(base)
		clean := c.p12exec(base, cwd, j.cmd, tool, "", "", "")
		os.RemoveAll(cwd)
		mkdir(filepath.Join(cwd, "d"))
		for f, s := range j.cmd.files {
			mustWrite(filepath.Join(cwd, f), []byte(s))
		}
		if j.bad != "" {
			mustWrite(filepath.Join(cwd, j.bad), []byte(j.cmd.files[j.bad]+"g(){"))
		}
		log := filepath.Join(base, "log")
		os.Remove(log)
		path := tool
		if j.how == "absent" {
			path = base
		}
		env := []string{"PATH=" + path, "HOME=" + base, "FCLANG_LOG=" + log, fmt.Sprintf("FCLANG_FAIL=%d", j.fail), "FCLANG_HOW=" + j.how, "TMPDIR=" + base}
		r := run(Cmd{Dir: cwd, Env: env, Args: append([]string{c.Blang}, strings.Fields(j.cmd.args)...), Timeout: 60 * time.Second})
		lb, _ := os.ReadFile(log)
		calls := bytes.Count(lb, []byte("\n"))
		reached := j.bad != "" || j.how == "absent" && !strings.Contains(j.cmd.args, "--emit-llvm") || j.fail > 0 && calls >= j.fail
		var errs []string
		files := c.p12snapshot(cwd)
		if reached {
			if r.Code == 0 {
				errs = append(errs, "exit status 0")
			}
			if len(bytes.TrimSpace(r.Err)) == 0 {
				errs = append(errs, "no message on standard error")
			}
			if j.bad == "" || !j.cmd.save {
				for f := range files {
					if strings.Contains(f, ".tmp.") && !j.cmd.save {
						errs = append(errs, "intermediate file "+f+" was left behind")
					}
				}
			}
		} else if r.Code != 0 && r.Code > 0 {
			errs = append(errs, fmt.Sprintf("status %d without a fault: %s", r.Code, clip(r.Err)))
		}
		if j.bad != "" {
			mustWrite(filepath.Join(cwd, j.bad), []byte(j.cmd.files[j.bad]))
		}
		r2 := c.p12exec(base, cwd, j.cmd, tool, "", "", "")
		if r2.Code != 0 {
			errs = append(errs, fmt.Sprintf("repeated without the fault: status %d %s", r2.Code, clip(r2.Err)))
		} else if d := same(clean.files, r2.files); d != "" && !j.cmd.save {
			errs = append(errs, "repeated without the fault: "+d)
		}
		if reached {
			c.Distinct.Add(1)
		}
		return strings.Join(errs, "\n")
	}
	Parallel(len(jobs), func(i int) {
		if c.Stop() {
			return
		}
		c.Evals.Add(1)
		msg := check(jobs[i])
		for k := 0; k < 3 && msg != ""; k++ {
			msg = check(jobs[i])
		}
		if msg != "" {
			j := jobs[i]
			c.Violation(fmt.Sprintf("tool:%s:%d%s%s", j.cmd.args, j.fail, j.how, j.bad), fmt.Sprintf("blang %s\n(run %d of the tool chain fails by %q; source with an error: %q)\n%s", j.cmd.args, j.fail, j.how, j.bad, msg), nil)
		}
	})
	c.Outcome("tool chain and source failures", int64(len(jobs)))
	c.Phase("tool failures")
}
