package main

import (
	"bytes"
	"encoding/binary"
	"fmt"
	"os"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Case is one program of a batch. '#' in the source and in the unit's names
// stands for the number of the case in its batch.
type Case struct {
	Key   string
	Src   string
	Unit  *Unit
	Entry string
	Dom   []int64
	MaxCh int
	Only  [][]byte // when set: the choice sequences to run (instead of all)
	runs  []runRec
	nodes int64
}

type runRec struct {
	choices []byte
	hash    uint64
	end     End
}

// explore enumerates every choice sequence of the case in the reference model.
func (cs *Case) explore() {
	if len(cs.Dom) > 250 {
		fatal("%s: domain of %d values", cs.Key, len(cs.Dom))
	}
	m := NewMachine(cs.Unit, cs.Dom, cs.MaxCh)
	cs.runs = nil
	if cs.Only != nil {
		for _, ch := range cs.Only {
			end, ret := m.Run(cs.Entry, append([]byte(nil), ch...))
			if end != EndDrop {
				cs.runs = append(cs.runs, runRec{append([]byte(nil), m.choices[:m.pos]...), hashRun(end, ret, m.trace), end})
			}
			cs.nodes += int64(len(ch)) + 1
		}
		return
	}
	var path []byte
	for {
		end, ret := m.Run(cs.Entry, path)
		used := append([]byte(nil), m.choices[:m.pos]...)
		if end != EndDrop {
			cs.runs = append(cs.runs, runRec{used, hashRun(end, ret, m.trace), end})
		}
		// next path in lexicographic order
		i := len(used) - 1
		for i >= 0 && int(used[i]) == len(cs.Dom)-1 {
			i--
		}
		cs.nodes++
		if i < 0 {
			return
		}
		path = append(append([]byte(nil), used[:i]...), used[i]+1)
		cs.nodes += int64(len(used) - i)
	}
}

type BatchOpts struct {
	Levels    []int // optimization levels
	MaxCases  int
	MaxBytes  int
	Extra     string // source text added to every batch
	ExtraC    string // C source linked into every batch
	KeyPrefix string
	Every     int // levels after the first are used for every Every-th batch only
}

type batchRunner struct {
	c    *Ctx
	o    BatchOpts
	drv  string
	xobj string
	nb   atomic.Int64
}

func (c *Ctx) newRunner(o BatchOpts) *batchRunner {
	if o.MaxCases == 0 {
		o.MaxCases = 1200
	}
	if o.MaxBytes == 0 {
		o.MaxBytes = 400000
	}
	if o.Levels == nil {
		o.Levels = []int{0, 2}
	}
	b := &batchRunner{c: c, o: o, drv: filepath.Join(c.Scratch, "build", "drv.o")}
	r := run(Cmd{Args: []string{"clang", "-O2", "-fno-omit-frame-pointer", "-w", "-c", "-o", b.drv, filepath.Join(c.Root, "cdrv", "drv.c")}})
	if r.Code != 0 {
		fatal("driver: %s", r.Err)
	}
	if o.ExtraC != "" {
		d := c.Temp()
		mustWrite(filepath.Join(d, "x.c"), []byte(o.ExtraC))
		b.xobj = filepath.Join(d, "x.o")
		if r := run(Cmd{Args: []string{"clang", "-O1", "-w", "-c", "-o", b.xobj, filepath.Join(d, "x.c")}}); r.Code != 0 {
			fatal("extra C: %s", r.Err)
		}
	}
	return b
}

// RunCases explores every case produced by gen in the model and replays all its
// runs on compiled code.
func (c *Ctx) RunCases(o BatchOpts, gen func(yield func(*Case) bool)) {
	if c.collect != nil {
		gen(func(cs *Case) bool { return c.collect(o, cs) })
		return
	}
	b := c.newRunner(o)
	ch := make(chan []*Case, 2)
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for chunk := range ch {
				if c.Stop() {
					continue
				}
				b.process(chunk)
			}
		}()
	}
	var chunk []*Case
	size := 0
	gen(func(cs *Case) bool {
		if c.Stop() {
			return false
		}
		chunk = append(chunk, cs)
		size += len(cs.Src)
		if len(chunk) >= b.o.MaxCases || size >= b.o.MaxBytes {
			ch <- chunk
			chunk, size = nil, 0
		}
		return true
	})
	if len(chunk) > 0 {
		ch <- chunk
	}
	close(ch)
	wg.Wait()
}

// hashMark stands for a literal '#' in a source text.
const hashMark = "\x02\x03HASH\x03\x02"

func (cs *Case) text(n int) string {
	s := strings.ReplaceAll(cs.Src, "#", strconv.Itoa(n))
	if strings.Contains(s, hashMark) {
		s = strings.ReplaceAll(s, hashMark, "#")
	}
	return s
}

func (b *batchRunner) source(cases []*Case) []byte {
	var s bytes.Buffer
	s.WriteString(b.o.Extra)
	for i, cs := range cases {
		s.WriteString(cs.text(i))
	}
	return s.Bytes()
}

// limited wraps a command in CPU-time and memory limits.
func limited(cpu int, args ...string) []string {
	return append([]string{"sh", "-c", fmt.Sprintf("ulimit -t %d; exec \"$@\"", cpu), "sh"}, args...)
}

// compile builds the executable for the cases; msg tells why it failed.
func (b *batchRunner) compile(dir string, cases []*Case, level int) (exe, msg string) {
	c := b.c
	src := filepath.Join(dir, "batch.b")
	mustWrite(src, b.source(cases))
	obj := filepath.Join(dir, fmt.Sprintf("batch%d.o", level))
	r := run(Cmd{Dir: dir, Env: c.env(), Args: limited(200, c.Blang, "-c", "-O", strconv.Itoa(level), "-o", obj, src), Timeout: 900 * time.Second})
	if r.Code != 0 {
		return "", fmt.Sprintf("compiler failed on a valid program: status %d %s\n%s%s", r.Code, r.Signal, clip(r.Out), clip(r.Err))
	}
	var t bytes.Buffer
	t.WriteString(".globl bbss_lo\n.bss\n.balign 64\nbbss_lo:\n.zero 64\n.data\n.globl vtab, bdata_lo\n.balign 64\nvtab:\n")
	for i, cs := range cases {
		fmt.Fprintf(&t, ".quad \"b.%s\"\n", strings.ReplaceAll(cs.Entry, "#", strconv.Itoa(i)))
	}
	t.WriteString(".balign 64\nbdata_lo:\n.section .note.GNU-stack,\"\",@progbits\n")
	tab := filepath.Join(dir, "tab.s")
	mustWrite(tab, t.Bytes())
	exe = filepath.Join(dir, fmt.Sprintf("exe%d", level))
	end := filepath.Join(dir, "end.s")
	mustWrite(end, []byte(".data\n.globl bdata_hi\n.balign 64\nbdata_hi:\n.section .note.GNU-stack,\"\",@progbits\n"))
	args := []string{"clang", "-no-pie", "-o", exe, b.drv, tab, obj}
	if b.xobj != "" {
		args = append(args, b.xobj)
	}
	args = append(args, end)
	r = run(Cmd{Dir: dir, Args: args})
	if r.Code != 0 {
		return "", fmt.Sprintf("linking a valid program failed: %s", clip(r.Err))
	}
	os.Remove(obj)
	return exe, ""
}

func clip(b []byte) string {
	if len(b) > 600 {
		b = b[:600]
	}
	return string(b)
}

func (b *batchRunner) runsFile(path string, cases []*Case) (total int) {
	var head, idx, body bytes.Buffer
	var doms []int64
	domOff := map[*int64]int{}
	w64 := func(w *bytes.Buffer, v uint64) {
		var t [8]byte
		binary.LittleEndian.PutUint64(t[:], v)
		w.Write(t[:])
	}
	offs := make([]int, len(cases))
	for i, cs := range cases {
		d := cs.Dom
		if len(d) == 0 {
			d = []int64{0}
		}
		o, ok := domOff[&d[0]]
		if !ok {
			o = len(doms)
			domOff[&d[0]] = o
			doms = append(doms, d...)
		}
		offs[i] = o
		total += len(cs.runs)
	}
	w64(&head, uint64(total))
	w64(&head, uint64(len(doms)))
	for _, d := range doms {
		w64(&head, uint64(d))
	}
	start := head.Len() + 8*total
	for i, cs := range cases {
		for _, r := range cs.runs {
			w64(&idx, uint64(start+body.Len()))
			w64(&body, uint64(i)|uint64(offs[i])<<32)
			w64(&body, uint64(len(r.choices)))
			w64(&body, r.hash)
			body.Write(r.choices)
			for body.Len()%8 != 0 {
				body.WriteByte(0)
			}
		}
	}
	f, err := os.Create(path)
	if err != nil {
		fatal("%v", err)
	}
	f.Write(head.Bytes())
	f.Write(idx.Bytes())
	if _, err := f.Write(body.Bytes()); err != nil {
		fatal("%v", err)
	}
	f.Close()
	return total
}

type bad struct {
	run    int
	detail string
}

// drive replays runs [lo,hi); crashed tells that the driver itself died.
func (b *batchRunner) drive(exe, runs string, lo, hi int) (bads []bad, done bool) {
	r := run(Cmd{Args: limited(250, exe, runs, strconv.Itoa(lo), strconv.Itoa(hi)), Timeout: 900 * time.Second})
	for _, l := range strings.Split(string(r.Out), "\n") {
		f := strings.Fields(l)
		if len(f) >= 2 && f[0] == "DONE" {
			done = true
		}
		if len(f) >= 5 && f[0] == "BAD" {
			n, _ := strconv.Atoi(f[1])
			e, _ := strconv.Atoi(f[3])
			ends := []string{"returned " + f[4], "asked for more choices or events than the model", "crashed", "did not terminate"}
			d := "trace [" + strings.Join(f[5:], " ") + "]"
			if e >= 0 && e < len(ends) {
				d += " then " + ends[e]
			}
			bads = append(bads, bad{n, d})
		}
	}
	return bads, done
}

func (b *batchRunner) process(cases []*Case) {
	c := b.c
	var nodes, runs int64
	for _, cs := range cases {
		cs.explore()
		nodes += cs.nodes
		runs += int64(len(cs.runs))
		if len(cs.runs) == 0 {
			c.Outcome("programs whose every run is undefined", 1)
		}
	}
	dir := c.Temp()
	defer os.RemoveAll(dir)
	k := int(b.nb.Add(1))
	for i, lv := range b.o.Levels {
		if c.Stop() {
			return
		}
		if i > 0 && b.o.Every > 1 && k%b.o.Every != 1 {
			continue
		}
		if !b.checkBatch(dir, cases, lv) {
			return
		}
		c.Traces.Add(runs)
	}
	c.States.Add(nodes)
	c.Transitions.Add(nodes - int64(len(cases)))
	c.Outcome("programs", int64(len(cases)))
	var ret, cut int64
	for _, cs := range cases {
		for _, r := range cs.runs {
			if r.end == EndReturn {
				ret++
			} else {
				cut++
			}
		}
	}
	c.Outcome("runs that return", ret)
	c.Outcome("runs cut at the choice or trace bound", cut)
	for _, cs := range cases[:1] {
		if len(cs.runs) > 0 {
			c.Sample(map[string]any{"program": cs.text(0), "choices": fmt.Sprint(cs.runs[0].choices), "runs": len(cs.runs)})
		}
	}
}

func (b *batchRunner) checkBatch(dir string, cases []*Case, lv int) bool {
	exe, msg := b.compile(dir, cases, lv)
	if msg != "" {
		b.locateCompile(cases, lv)
		return false
	}
	rf := filepath.Join(dir, "runs")
	total := b.runsFile(rf, cases)
	bads, done := b.drive(exe, rf, 0, total)
	if len(bads) == 0 && done {
		os.Remove(exe)
		return true
	}
	if len(bads) == 0 {
		// the driver died: find the run by bisection
		lo, hi := 0, total
		for hi-lo > 1 {
			mid := (lo + hi) / 2
			bs, ok := b.drive(exe, rf, lo, mid)
			if len(bs) > 0 || !ok {
				hi = mid
			} else {
				lo = mid
			}
		}
		bads = []bad{{lo, "the process died"}}
	}
	for k, bd := range bads {
		if k >= 2 {
			break
		}
		b.confirm(exe, rf, cases, bd, lv)
	}
	return false
}

// locateCompile finds a smallest group of cases the compiler fails on.
func (b *batchRunner) locateCompile(cases []*Case, lv int) {
	dir := b.c.Temp()
	defer os.RemoveAll(dir)
	cur := cases
	for len(cur) > 1 {
		h := len(cur) / 2
		if _, m := b.compile(dir, cur[:h], lv); m != "" {
			cur = cur[:h]
		} else if _, m := b.compile(dir, cur[h:], lv); m != "" {
			cur = cur[h:]
		} else {
			break
		}
	}
	msg := ""
	for k := 0; k < 3; k++ {
		_, m := b.compile(dir, cur, lv)
		if m == "" {
			return // did not happen again: no verdict
		}
		msg = m
	}
	src := string(b.source(cur))
	b.c.Violation(b.o.KeyPrefix+cur[0].Key, fmt.Sprintf("%s\nat -O%d, program:\n%s", msg, lv, clip([]byte(src))), map[string]string{"prog.b": src})
}

func (b *batchRunner) confirm(exe, rf string, cases []*Case, bd bad, lv int) {
	c := b.c
	// which case and which choices
	n := bd.run
	var cs *Case
	ci := 0
	for ci = range cases {
		if n < len(cases[ci].runs) {
			cs = cases[ci]
			break
		}
		n -= len(cases[ci].runs)
	}
	if cs == nil {
		return
	}
	rr := cs.runs[n]
	// alone?
	dir := c.Temp()
	defer os.RemoveAll(dir)
	alone := *cs
	alone.runs = []runRec{rr}
	src := string(b.source([]*Case{&alone}))
	detail := bd.detail
	where := "alone"
	exe1, msg := b.compile(dir, []*Case{&alone}, lv)
	rep := 0
	if msg == "" {
		rf1 := filepath.Join(dir, "runs")
		b.runsFile(rf1, []*Case{&alone})
		for k := 0; k < 5; k++ {
			bs, done := b.drive(exe1, rf1, 0, 1)
			if len(bs) > 0 {
				rep++
				detail = bs[0].detail
			} else if !done {
				rep++
			}
		}
	} else {
		rep, detail = 5, msg
	}
	if rep < 5 {
		where = "in this batch"
		rep = 0
		for k := 0; k < 5; k++ {
			bs, done := b.drive(exe, rf, bd.run, bd.run+1)
			if len(bs) > 0 || !done {
				rep++
			}
		}
		src = string(b.source(cases))
	}
	if rep < 5 {
		// maybe it depends on earlier runs of the same process
		rep = 0
		where = "after the earlier runs of its batch"
		for k := 0; k < 5; k++ {
			bs, done := b.drive(exe, rf, 0, bd.run+1)
			if len(bs) > 0 || !done {
				rep++
			}
		}
	}
	if rep < 5 {
		return // not reproducible: no verdict
	}
	m := NewMachine(cs.Unit, cs.Dom, cs.MaxCh)
	end, ret := m.Run(cs.Entry, append([]byte(nil), rr.choices...))
	var vals []int64
	for _, x := range rr.choices {
		vals = append(vals, cs.Dom[x])
	}
	ends := map[End]string{EndReturn: fmt.Sprintf("returned %d", ret), EndCut: "still running"}
	what := fmt.Sprintf("program (%s, -O%d):\n%s\nchoices (values returned by c and o): %v\nexpected: trace %v then %s\nactual:   %s",
		where, lv, cs.text(ci), vals, m.trace, ends[end], detail)
	c.Violation(b.o.KeyPrefix+cs.Key, what, map[string]string{"prog.b": src})
}
