package main

import (
	"bufio"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"sync/atomic"
	"syscall"
)

func init() { checks["P20"] = checkP20 }

// ---- one controlled execution of several commands (cdrv/sched.c) ----

// sop is a file operation a command is about to make.
type sop struct {
	write bool
	call  string
	paths []string
	text  string
}

func (a *sop) depends(b *sop) bool {
	if !a.write && !b.write {
		return false
	}
	for _, p := range a.paths {
		for _, q := range b.paths {
			if p == q || strings.HasPrefix(p, q+"/") && b.write || strings.HasPrefix(q, p+"/") && a.write || a.call == "list" && filepath.Dir(q) == p || b.call == "list" && filepath.Dir(p) == q {
				return true
			}
		}
	}
	return false
}

type schedCmd struct {
	cwd  string
	env  []string
	args []string
}

type schedRun struct {
	cmd   *exec.Cmd
	in    io.WriteCloser
	out   *bufio.Reader
	pend  []*sop
	ended []bool
	wait  []int
	aux   string
	ok    bool // false: the scheduler gave up
	done  bool
}

func (c *Ctx) schedTool() string {
	p := filepath.Join(c.Scratch, "sched")
	if _, err := os.Stat(p); err != nil {
		if r := run(Cmd{Args: []string{"clang", "-O1", "-w", "-o", p, filepath.Join(c.Root, "cdrv/sched.c")}}); r.Code != 0 {
			fatal("sched: %s", r.Err)
		}
	}
	return p
}

func (c *Ctx) schedStart(tool, root, aux string, cmds []schedCmd) *schedRun {
	n := len(cmds)
	args := []string{root, aux, fmt.Sprint(n)}
	for i, k := range cmds {
		args = append(args, k.cwd, filepath.Join(aux, fmt.Sprintf("out.%d", i)), filepath.Join(aux, fmt.Sprintf("err.%d", i)), fmt.Sprint(len(k.env)))
		args = append(args, k.env...)
		args = append(args, fmt.Sprint(len(k.args)))
		args = append(args, k.args...)
	}
	r := &schedRun{cmd: exec.Command(tool, args...), pend: make([]*sop, n), ended: make([]bool, n), wait: make([]int, n), aux: aux}
	r.cmd.SysProcAttr = &syscall.SysProcAttr{Pdeathsig: syscall.SIGKILL}
	r.in, _ = r.cmd.StdinPipe()
	o, _ := r.cmd.StdoutPipe()
	r.out = bufio.NewReader(o)
	if err := r.cmd.Start(); err != nil {
		return r
	}
	r.next()
	return r
}

func (r *schedRun) next() {
	r.ok = false
	for i := range r.pend {
		r.pend[i] = nil
	}
	for {
		l, err := r.out.ReadString('\n')
		if err != nil {
			return
		}
		l = strings.TrimSuffix(l, "\n")
		switch {
		case l == "?":
			r.ok = true
			return
		case l == "end":
			r.ok, r.done = true, true
			return
		case strings.HasPrefix(l, "p "):
			f := strings.Split(l[2:], "\t")
			var i int
			fmt.Sscan(f[0], &i)
			s := &sop{write: f[1] == "W", call: f[2], text: strings.Join(f[1:], " ")}
			for _, p := range f[3:] {
				s.paths = append(s.paths, filepath.Clean(p))
			}
			r.pend[i] = s
		case strings.HasPrefix(l, "x "):
			var i, st int
			fmt.Sscan(l[2:], &i, &st)
			r.ended[i], r.wait[i] = true, st
		case l == "hang":
			return
		}
	}
}

func (r *schedRun) step(i int) { fmt.Fprintf(r.in, "%d\n", i); r.next() }
func (r *schedRun) kill(i int) { fmt.Fprintf(r.in, "k%d\n", i); r.next() }
func (r *schedRun) close() {
	r.in.Close()
	if !r.done {
		r.cmd.Process.Kill()
	}
	r.cmd.Wait()
}

func waitText(st int) string {
	w := syscall.WaitStatus(st)
	if w.Signaled() {
		return "signal " + w.Signal().String()
	}
	return fmt.Sprint("status ", w.ExitStatus())
}

// ---- systematic exploration with dynamic partial-order reduction ----

type dnode struct {
	pend                   []*sop
	backtrack, done, sleep uint
	chosen                 int
	clock                  []int // of the operation executed here
}

type dstats struct {
	execs, blocked, steps int
	complete, diverged    bool
}

// dpor runs every Mazurkiewicz trace of the commands. start prepares a fresh
// state and begins an execution; finish judges a completed one and says
// whether to go on.
func dpor(n, limit int, start func() *schedRun, finish func(r *schedRun, sched []int) bool) (st dstats) {
	var stack []*dnode
	for {
		if st.execs+st.blocked >= limit {
			return
		}
		r := start()
		k := 0
		clocks := make([][]int, n)
		for i := range clocks {
			clocks[i] = make([]int, n)
		}
		full := true
		for r.ok && !r.done {
			st.steps++
			if k == len(stack) {
				nd := &dnode{pend: append([]*sop{}, r.pend...)}
				if k > 0 {
					p := stack[k-1]
					for q := 0; q < n; q++ {
						if (p.sleep|p.done)>>q&1 == 1 && q != p.chosen && p.pend[q] != nil && !p.pend[q].depends(p.pend[p.chosen]) {
							nd.sleep |= 1 << q
						}
					}
				}
				// races between what was done and what is about to be done
				for q, o := range nd.pend {
					if o == nil {
						continue
					}
					for i := k - 1; i >= 0; i-- {
						s := stack[i]
						if s.chosen != q && clocks[q][s.chosen] < i+1 && s.pend[s.chosen].depends(o) {
							s.backtrack |= 1 << q
							break
						}
					}
				}
				nd.chosen = -1
				for q, o := range nd.pend {
					if o != nil && nd.sleep>>q&1 == 0 {
						nd.chosen = q
						break
					}
				}
				if nd.chosen < 0 {
					full = false
					break
				}
				nd.backtrack |= 1 << nd.chosen
				stack = append(stack, nd)
			}
			nd := stack[k]
			if o := r.pend[nd.chosen]; o == nil || o.text != nd.pend[nd.chosen].text {
				st.diverged = true
				r.close()
				return
			}
			// clock of the operation
			cl := append([]int{}, clocks[nd.chosen]...)
			for i := k - 1; i >= 0; i-- {
				s := stack[i]
				if s.pend[s.chosen].depends(nd.pend[nd.chosen]) {
					for j := range cl {
						cl[j] = max(cl[j], s.clock[j])
					}
				}
			}
			cl[nd.chosen] = k + 1
			nd.clock = cl
			clocks[nd.chosen] = cl
			r.step(nd.chosen)
			k++
		}
		if !r.ok {
			st.diverged = true
			r.close()
			return
		}
		r.close()
		if full {
			st.execs++
			sched := make([]int, len(stack))
			for i, s := range stack {
				sched[i] = s.chosen
			}
			if !finish(r, sched) {
				return
			}
		} else {
			st.blocked++
		}
		// next branch
		for len(stack) > 0 {
			nd := stack[len(stack)-1]
			nd.done |= 1 << nd.chosen
			c := -1
			for q := 0; q < n; q++ {
				if (nd.backtrack&^nd.done&^nd.sleep)>>q&1 == 1 {
					c = q
					break
				}
			}
			if c >= 0 {
				nd.chosen = c
				break
			}
			stack = stack[:len(stack)-1]
		}
		if len(stack) == 0 {
			st.complete = true
			return
		}
	}
}

// ---- P20 ----

type p20form struct {
	cwd, args string // % in args: number of the command in the group
	fail      bool   // the tool chain fails
}

var p20files = map[string]string{
	"a.b":    "main(){return(f(1));}\n",
	"f.b":    "f(x){return(x);}\n",
	"bad.b":  "f(){g(}\n",
	"d1/a.b": "main(){extrn v;v=\"d\";return(f(2));}\n",
	"d1/f.b": "v;f(x){return(-x);}\n",
	"d2/a.b": "main(){f(3);}\n",
	"x.ll":   "; m\n",
	"y.s":    "# s\n",
	"z.o":    "o\n",
}

func p20forms(thorough bool) (l []p20form) {
	add := func(a ...string) {
		for _, s := range a {
			l = append(l, p20form{args: s})
		}
	}
	add("a.b -o p%", "a.b f.b -o p%", "d1/a.b f.b -o p%", "d1/a.b d1/f.b -o p%", "d2/a.b d1/f.b -o d2/p%", "a.b d2/a.b -o p%", "f.b a.b -o p%", "f.b x.ll y.s z.o a.b -o p%",
		"-c a.b -o p%.o", "-c d1/a.b -o p%.o", "-S a.b -o p%.s", "-S d1/a.b -o d1/p%", "--emit-llvm a.b -o p%.ll", "--emit-llvm d1/a.b -o p%",
		"--save-temps a.b -o p%", "--save-temps a.b f.b -o p%", "--save-temps -c a.b -o p%.o", "-O2 -g a.b f.b -o p%",
		"bad.b a.b -o p%", "a.b bad.b -o p%", "-c bad.b -o p%.o", "-S bad.b -o p%.s", "none.b a.b -o p%", "-v a.b f.b -o p%",
		"a.b", "a.b f.b", "f.b a.b", "-c a.b", "-S a.b", "--emit-llvm a.b", "-c a.b f.b", "-S a.b f.b", "--emit-llvm f.b d1/a.b", "-c x.ll y.s", "-c a.b bad.b", "-c f.b d1/a.b",
		// results whose names differ in the directory or the suffix only
		"a.b -o d1/r", "d1/a.b -o d2/r", "d2/a.b -o r", "a.b f.b -o d1/r", "d1/a.b f.b -o d2/r", "d2/a.b d1/f.b -o r", "-c a.b -o d1/r.o", "-c d1/a.b -o d2/r.o", "-S a.b -o d1/r.s", "-S d2/a.b -o r.s", "-c d2/a.b -o r.o", "--emit-llvm a.b -o d1/r.ll", "--emit-llvm d1/a.b -o r.ll", "a.b -o r.x", "d1/a.b f.b -o r.y")
	l = append(l, p20form{"d1", "a.b f.b -o p%", false}, p20form{"d1", "../a.b f.b -o ../p%", false}, p20form{"d1", "a.b ../f.b", false}, p20form{"d1", "-c a.b", false}, p20form{"d2", "a.b ../f.b -o q%", false},
		p20form{"", "a.b -o p%", true}, p20form{"", "a.b f.b -o p%", true}, p20form{"", "-c a.b f.b", true}, p20form{"", "-S a.b -o p%.s", true})
	return
}

type p20alone struct {
	status   string
	code     int
	out, err string
	files    map[string]string // final files that differ from the initial ones ("" with a leading "-": removed)
	inputs   map[string]bool
	wants    map[string]bool // outputs asked for, made or not
	ops      []string
}

func checkP20(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "the commands are the real ones, each file operation a decision point of the controlled scheduler; states and transitions: decision points passed (and commands of histories); traces: complete executions compared with every command's run alone - one per class of interleavings of each pair and triple (dynamic partial-order reduction), one per interruption point with its repetition, one per history"
	tool := c.schedTool()
	tools := mkdir(filepath.Join(c.Scratch, "stool"))
	if r := run(Cmd{Args: []string{"clang", "-O1", "-static", "-w", "-o", filepath.Join(tools, "clang"), filepath.Join(c.Root, "cdrv/sclang.c")}}); r.Code != 0 {
		fatal("sclang: %s", r.Err)
	}
	forms := p20forms(c.Thorough())
	setup := func() (root, aux string) {
		base := c.Temp()
		if r, err := filepath.EvalSymlinks(base); err == nil {
			base = r
		}
		root, aux = mkdir(filepath.Join(base, "w")), mkdir(filepath.Join(base, "x"))
		return
	}
	fill := func(root string) {
		ents, _ := os.ReadDir(root)
		for _, e := range ents {
			os.RemoveAll(filepath.Join(root, e.Name()))
		}
		mkdir(filepath.Join(root, "d1"))
		mkdir(filepath.Join(root, "d2"))
		mkdir(filepath.Join(root, "tmp"))
		for f, s := range p20files {
			mustWrite(filepath.Join(root, f), []byte(s))
		}
	}
	mk := func(root, aux string, f p20form, slot int) schedCmd {
		path := tools
		env := []string{"PATH=" + path, "HOME=" + aux, "GOMAXPROCS=1", "GODEBUG=asyncpreemptoff=1", "TMPDIR=" + filepath.Join(root, "tmp")}
		if f.fail {
			env = append(env, "SCLANG_FAIL=1")
		}
		return schedCmd{cwd: filepath.Join(root, f.cwd), env: env, args: append([]string{c.Blang}, strings.Fields(strings.ReplaceAll(f.args, "%", fmt.Sprint(slot)))...)}
	}
	read := func(aux, name string, i int) string {
		b, _ := os.ReadFile(filepath.Join(aux, fmt.Sprintf("%s.%d", name, i)))
		return strings.ReplaceAll(string(b), filepath.Dir(aux), "@")
	}
	changed := func(root string) map[string]string {
		m := c.p12snapshot(root)
		for f, s := range p20files {
			if t, ok := m[f]; !ok {
				m["-"+f] = ""
			} else if t == s {
				delete(m, f)
			}
		}
		return m
	}
	// every command alone, in every place of a group
	const slots = 3
	alone := make([][3]*p20alone, len(forms))
	usable := atomic.Bool{}
	usable.Store(true)
	Parallel(len(forms)*slots, func(j int) {
		i, slot := j/slots, j%slots
		var root, aux string
		var k schedCmd
		var r *schedRun
		var ops []string
		// a machine under heavy load may need another try
		for try := 0; try < 3 && (r == nil || !r.ok); try++ {
			root, aux = setup()
			defer os.RemoveAll(filepath.Dir(root))
			fill(root)
			k = mk(root, aux, forms[i], slot)
			r, ops = c.schedStart(tool, root, aux, []schedCmd{k}), nil
			for r.ok && !r.done {
				ops = append(ops, r.pend[0].text)
				r.step(0)
			}
			r.close()
		}
		if !r.ok {
			usable.Store(false)
			return
		}
		a := &p20alone{status: waitText(r.wait[0]), out: read(aux, "out", 0), err: read(aux, "err", 0), files: changed(root), ops: ops, code: r.wait[0], inputs: map[string]bool{}, wants: map[string]bool{}}
		ext, o := "", false
		for _, w := range k.args[1:] {
			p := filepath.Clean(filepath.Join(forms[i].cwd, w))
			switch {
			case o:
				a.wants[p] = true
			case w == "-c":
				ext = ".o"
			case w == "-S":
				ext = ".s"
			case w == "--emit-llvm":
				ext = ".ll"
			default:
				if _, ok := p20files[p]; ok {
					a.inputs[p] = true
				}
			}
			o = w == "-o"
		}
		if len(a.wants) == 0 {
			for _, w := range k.args[1:] {
				if !strings.HasPrefix(w, "-") && (ext != "" || len(a.wants) == 0) {
					a.wants[filepath.Join(forms[i].cwd, stem(filepath.Base(w))+ext)] = true
				}
			}
		}
		alone[i][slot] = a
	})
	if !usable.Load() {
		c.Extra["controlled scheduler"] = "not run: ptrace or seccomp is not usable here"
		return
	}
	c.Phase("alone")
	apart := func(a, b *p20alone) bool {
		touch := map[string]bool{}
		for f := range a.wants {
			touch[f] = true
		}
		for f := range a.files {
			touch[f] = true
		}
		for f := range touch {
			if _, ok := b.files[f]; ok || b.inputs[f] || b.wants[f] {
				return false
			}
		}
		for f := range b.files {
			if a.inputs[f] {
				return false
			}
		}
		for f := range b.wants {
			if a.inputs[f] || touch[f] {
				return false
			}
		}
		return true
	}
	c.p20interrupted(forms, alone0(alone), setup, fill, mk, read, changed, tool)
	c.p20histories(forms, alone0(alone), setup, fill, mk, read, changed)
	type group []int
	var groups []group
	for i := range forms {
		for j := i; j < len(forms); j++ {
			if apart(alone[i][0], alone[j][1]) {
				groups = append(groups, group{i, j})
			}
		}
	}
	pairs := len(groups)
	var core []int
	for i, f := range forms {
		if c.Thorough() || i < 6 || f.args == "-c a.b" || f.args == "a.b bad.b -o p%" || f.args == "--save-temps a.b f.b -o p%" || f.args == "d1/a.b f.b" {
			core = append(core, i)
		}
	}
	for x, i := range core {
		for y, j := range core[x:] {
			for _, k := range core[x+y:] {
				if apart(alone[i][0], alone[j][1]) && apart(alone[i][0], alone[k][2]) && apart(alone[j][1], alone[k][2]) {
					groups = append(groups, group{i, j, k})
				}
			}
		}
	}
	var mu sync.Mutex
	var total, cut, diverged, multi, blocked int
	text := func(g group) string {
		var s []string
		for slot, i := range g {
			w := "blang " + strings.ReplaceAll(forms[i].args, "%", fmt.Sprint(slot))
			if forms[i].cwd != "" {
				w = "cd " + forms[i].cwd + "; " + w
			}
			if forms[i].fail {
				w += " [tool chain fails]"
			}
			s = append(s, w)
		}
		return strings.Join(s, "   &   ")
	}
	Parallel(len(groups), func(gi int) {
		if c.Stop() {
			return
		}
		g := groups[gi]
		root, aux := setup()
		defer os.RemoveAll(filepath.Dir(root))
		start := func() *schedRun {
			fill(root)
			var ks []schedCmd
			for slot, i := range g {
				ks = append(ks, mk(root, aux, forms[i], slot))
			}
			return c.schedStart(tool, root, aux, ks)
		}
		judge := func(r *schedRun) string {
			var bad []string
			want := map[string]string{}
			for slot, i := range g {
				a := alone[i][slot]
				for f, s := range a.files {
					want[f] = s
				}
				if s := waitText(r.wait[slot]); s != a.status {
					bad = append(bad, fmt.Sprintf("command %d: %s instead of %s\n%s", slot, s, a.status, read(aux, "err", slot)))
				}
				if s := read(aux, "out", slot); s != a.out {
					bad = append(bad, fmt.Sprintf("command %d: standard output %q instead of %q", slot, s, a.out))
				}
				if s := read(aux, "err", slot); s != a.err {
					bad = append(bad, fmt.Sprintf("command %d: diagnostics %q instead of %q", slot, s, a.err))
				}
			}
			if d := same(want, changed(root)); d != "" {
				bad = append(bad, "files: "+d)
			}
			return strings.Join(bad, "\n")
		}
		limit := Pick(c, 400, 20000)
		st := dpor(len(g), limit, start, func(r *schedRun, sched []int) bool {
			msg := judge(r)
			if msg == "" {
				return true
			}
			// the same schedule again, with the operations written down
			var log strings.Builder
			for k := 0; k < 3; k++ {
				log.Reset()
				r := start()
				for i := 0; r.ok && !r.done; i++ {
					ch := -1
					if i < len(sched) && r.pend[sched[i]] != nil {
						ch = sched[i]
					} else {
						for q, o := range r.pend {
							if o != nil {
								ch = q
							}
						}
					}
					fmt.Fprintf(&log, "%d %s\n", ch, strings.ReplaceAll(r.pend[ch].text, root, "."))
					r.step(ch)
				}
				r.close()
				if !r.ok {
					return true
				}
				m := judge(r)
				if m == "" {
					return true
				}
				msg = m
			}
			c.Violation("group:"+text(g), "at the same time: "+text(g)+"\n"+msg, map[string]string{"schedule.txt": log.String()})
			return false
		})
		mu.Lock()
		total += st.steps
		blocked += st.blocked
		if st.diverged {
			diverged++
		} else if !st.complete {
			cut++
		}
		if st.execs > 1 {
			multi++
		}
		mu.Unlock()
		c.Evals.Add(int64(st.execs))
		c.Distinct.Add(int64(st.execs))
		c.States.Add(int64(st.steps))
		c.Transitions.Add(int64(st.steps))
		c.Traces.Add(int64(st.execs))
		if gi%(len(groups)/6+1) == 3 {
			c.Sample(map[string]any{"commands": text(g), "executions": st.execs, "decision points": st.steps, "all interleavings covered": st.complete})
		}
	})
	c.Extra["bounds"] = map[string]any{"command forms": len(forms), "pairs": pairs, "triples": len(groups) - pairs, "executions per group at most": Pick(c, 400, 20000)}
	c.Outcome("decision points", int64(total))
	c.Outcome("groups with all interleavings covered", int64(len(groups)-cut-diverged))
	c.Outcome("groups with more than one class of interleavings", int64(multi))
	c.Outcome("groups cut at the limit", int64(cut))
	c.Outcome("groups whose operations were not the same twice", int64(diverged))
	c.Outcome("executions cut because another one covers them", int64(blocked))
	if cut+diverged > 0 {
		c.capped.Store(true)
	}
	c.Phase("groups")
}

func alone0(a [][3]*p20alone) (l []*p20alone) {
	for _, x := range a {
		l = append(l, x[0])
	}
	return
}

// p20interrupted kills each command before every operation that changes
// something or follows one, and then runs it again.
func (c *Ctx) p20interrupted(forms []p20form, alone []*p20alone, setup func() (string, string), fill func(string), mk func(string, string, p20form, int) schedCmd, read func(string, string, int) string, changed func(string) map[string]string, tool string) {
	type point struct{ form, at int }
	var pts []point
	for i, a := range alone {
		last := ""
		for k, o := range a.ops {
			if o != last || strings.HasPrefix(o, "W") {
				pts = append(pts, point{i, k})
			}
			last = o
		}
	}
	var reached atomic.Int64
	Parallel(len(pts), func(n int) {
		if c.Stop() {
			return
		}
		p := pts[n]
		check := func() string {
			root, aux := setup()
			defer os.RemoveAll(filepath.Dir(root))
			fill(root)
			k := mk(root, aux, forms[p.form], 0)
			r := c.schedStart(tool, root, aux, []schedCmd{k})
			for j := 0; r.ok && !r.done && j < p.at; j++ {
				r.step(0)
			}
			if !r.ok || r.done {
				r.close()
				return ""
			}
			op := strings.ReplaceAll(r.pend[0].text, root, ".")
			r.kill(0)
			r.close()
			if !r.done {
				return ""
			}
			reached.Add(1)
			c.States.Add(1)
			var bad []string
			for f, s := range p20files {
				if b, err := os.ReadFile(filepath.Join(root, f)); err != nil || string(b) != s {
					bad = append(bad, "input "+f+" was damaged")
				}
			}
			if d := p20again(root, aux, k, alone[p.form], read, changed, true); d != "" {
				bad = append(bad, "run again: "+d)
			}
			if len(bad) > 0 {
				return "killed before: " + op + "\n" + strings.Join(bad, "\n")
			}
			return ""
		}
		c.Evals.Add(1)
		c.Distinct.Add(1)
		c.Traces.Add(1)
		msg := check()
		for k := 0; k < 2 && msg != ""; k++ {
			msg = check()
		}
		if msg != "" {
			f := forms[p.form]
			c.Violation(fmt.Sprintf("killed:%s %s:%d", f.cwd, f.args, p.at), fmt.Sprintf("(in %q) blang %s\n%s", f.cwd, f.args, msg), nil)
		}
	})
	c.Outcome("interruptions, each followed by a repetition", reached.Load())
	c.Phase("interrupted")
}

// p20again runs one command freely and compares it with its run alone.
func p20again(root, aux string, k schedCmd, a *p20alone, read func(string, string, int) string, changed func(string) map[string]string, all bool) string {
	r := run(Cmd{Dir: k.cwd, Env: k.env, Args: k.args})
	var bad []string
	if want := syscall.WaitStatus(a.code).ExitStatus(); r.Code != want {
		bad = append(bad, fmt.Sprintf("status %d instead of %d: %s", r.Code, want, clip(r.Err)))
	}
	strip := func(b []byte) string { return strings.ReplaceAll(string(b), filepath.Dir(aux), "@") }
	if s := strip(r.Out); s != a.out {
		bad = append(bad, fmt.Sprintf("standard output %q instead of %q", s, a.out))
	}
	if s := strip(r.Err); s != a.err {
		bad = append(bad, fmt.Sprintf("diagnostics %q instead of %q", s, a.err))
	}
	got := changed(root)
	for f, s := range a.files {
		if t, ok := got[f]; !ok {
			bad = append(bad, f+" is missing")
		} else if t != s {
			bad = append(bad, fmt.Sprintf("%s differs (%d bytes instead of %d)", f, len(t), len(s)))
		}
	}
	if all && r.Code == 0 {
		for f := range got {
			if _, ok := a.files[f]; !ok && !a.wants[f] {
				bad = append(bad, f+" is left over")
			}
		}
	}
	return strings.Join(bad, "\n")
}

// p20histories runs commands one after another in the same directory; each has
// to do what it does in a fresh one.
func (c *Ctx) p20histories(forms []p20form, alone []*p20alone, setup func() (string, string), fill func(string), mk func(string, string, p20form, int) schedCmd, read func(string, string, int) string, changed func(string) map[string]string) {
	var seqs [][]int
	for i := range forms {
		for j := range forms {
			seqs = append(seqs, []int{i, j})
		}
	}
	n2 := len(seqs)
	core := Pick(c, 12, 24)
	for i := 0; i < core; i++ {
		for j := 0; j < core; j++ {
			for k := 0; k < core; k++ {
				f := func(n int) int { return n * len(forms) / core }
				seqs = append(seqs, []int{f(i), f(j), f(k)})
			}
		}
	}
	Parallel(len(seqs), func(n int) {
		if c.Stop() {
			return
		}
		check := func() string {
			root, aux := setup()
			defer os.RemoveAll(filepath.Dir(root))
			fill(root)
			var log []string
			prev := map[string]string{}
			for _, i := range seqs[n] {
				k := mk(root, aux, forms[i], 0)
				log = append(log, fmt.Sprintf("(in %q) blang %s", forms[i].cwd, forms[i].args))
				d := p20again(root, aux, k, alone[i], read, changed, false)
				c.States.Add(1)
				now := changed(root)
				for f, s := range prev {
					if _, own := alone[i].files[f]; !own && !alone[i].wants[f] && !strings.Contains(f, ".tmp.") {
						if t, ok := now[f]; !ok || t != s {
							d += "\n" + f + " of an earlier command was changed"
						}
					}
				}
				for f := range now {
					_, own := alone[i].files[f]
					if _, old := prev[f]; !own && !old && !alone[i].wants[f] {
						d += "\n" + f + " is left over"
					}
				}
				prev = now
				if d != "" {
					return strings.Join(log, "\n") + "\n" + d
				}
			}
			return ""
		}
		c.Evals.Add(1)
		c.Distinct.Add(1)
		c.Traces.Add(1)
		msg := check()
		for k := 0; k < 2 && msg != ""; k++ {
			msg = check()
		}
		if msg != "" {
			c.Violation(fmt.Sprint("history:", seqs[n]), "one after another in one directory:\n"+msg, nil)
		}
	})
	c.Outcome("histories of two commands", int64(n2))
	c.Outcome("histories of three commands", int64(len(seqs)-n2))
	c.Phase("histories")
}
