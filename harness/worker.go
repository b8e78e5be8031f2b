package main

import (
	"bufio"
	"encoding/binary"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"sync"
	"sync/atomic"
	"time"
)

// Verdict of the compiler's front end on one source text.
type Verdict struct {
	St  byte // 'A' accepted, 'R' rejected, 'P' panic, 'H' endless reading, 'K' process died, 'T' no answer in time
	Out string
	Inj bool // the requested read fault was injected
}

type Req struct {
	Mode   byte // 'C' compile, 'V' verdict only, 'F' several files with one Compile
	Kind   byte
	FailAt int
	Files  [][]byte
}

type Worker struct {
	c   *Ctx
	cmd *exec.Cmd
	w   *bufio.Writer
	r   *bufio.Reader
	wf  *os.File
	rf  *os.File
	dir string
}

var workerTimeout = 20 * time.Second

func (c *Ctx) NewWorker() *Worker {
	w := &Worker{c: c, dir: c.Temp()}
	if c.WorkerOK {
		w.start()
	}
	return w
}

func (w *Worker) start() {
	r0, w0, err := os.Pipe()
	if err != nil {
		fatal("%v", err)
	}
	r1, w1, err := os.Pipe()
	if err != nil {
		fatal("%v", err)
	}
	w.cmd = exec.Command("sh", "-c", "ulimit -v 12000000; exec \"$0\"", w.c.Blang)
	w.cmd.Env = w.c.env("VERIF_WORKER=1", "VERIF_WORKER_DIR="+w.dir, "GOMAXPROCS=2", "GOTRACEBACK=single")
	if os.Getenv("VERIF_TIMING") != "" {
		w.cmd.Stderr = os.Stderr
	}
	w.cmd.ExtraFiles = []*os.File{r0, w1}
	if err := w.cmd.Start(); err != nil {
		fatal("worker: %v", err)
	}
	r0.Close()
	w1.Close()
	w.wf, w.rf = w0, r1
	w.w, w.r = bufio.NewWriterSize(w0, 1<<16), bufio.NewReaderSize(r1, 1<<16)
}

func (w *Worker) Close() {
	if w.cmd == nil {
		return
	}
	w.wf.Close()
	w.rf.Close()
	w.cmd.Process.Kill()
	w.cmd.Wait()
	w.cmd = nil
}

func put(bw *bufio.Writer, q Req) {
	var b [10]byte
	b[0], b[1] = q.Mode, q.Kind
	binary.LittleEndian.PutUint32(b[2:], uint32(int32(q.FailAt)))
	binary.LittleEndian.PutUint32(b[6:], uint32(len(q.Files)))
	bw.Write(b[:])
	for _, f := range q.Files {
		binary.LittleEndian.PutUint32(b[:], uint32(len(f)))
		bw.Write(b[:4])
		bw.Write(f)
	}
}

// Batch sends several requests and returns their verdicts. A death or a
// time-out is attributed to the request being served, and the worker restarted.
func (w *Worker) Batch(qs []Req) []Verdict {
	out := make([]Verdict, 0, len(qs))
	if !w.c.WorkerOK {
		for _, q := range qs {
			out = append(out, w.c.slow(q))
		}
		return out
	}
	for len(out) < len(qs) {
		part := qs[len(out):]
		var last atomic.Int64
		last.Store(time.Now().UnixNano())
		var timedOut atomic.Bool
		done := make(chan struct{})
		bw, proc := w.w, w.cmd.Process
		sent := make(chan struct{})
		go func() {
			defer close(sent)
			for _, q := range part {
				put(bw, q)
			}
			bw.Flush()
		}()
		go func() {
			t := time.NewTicker(500 * time.Millisecond)
			defer t.Stop()
			for {
				select {
				case <-done:
					return
				case <-t.C:
					if time.Since(time.Unix(0, last.Load())) > workerTimeout {
						timedOut.Store(true)
						proc.Kill()
						return
					}
				}
			}
		}()
		ok := true
		for i := range part {
			var b [5]byte
			if _, err := io.ReadFull(w.r, b[:]); err != nil {
				ok = false
				break
			}
			p := make([]byte, binary.LittleEndian.Uint32(b[1:]))
			if _, err := io.ReadFull(w.r, p); err != nil {
				ok = false
				break
			}
			last.Store(time.Now().UnixNano())
			v := Verdict{St: b[0], Out: string(p)}
			if part[i].Mode != 'F' && part[i].FailAt >= 0 && len(v.Out) > 0 {
				v.Inj = v.Out[0] == '1'
				v.Out = v.Out[1:]
			}
			out = append(out, v)
		}
		close(done)
		if !ok {
			w.rf.Close()
			proc.Kill()
		}
		<-sent
		if !ok {
			if os.Getenv("VERIF_TIMING") != "" {
				fmt.Fprintf(os.Stderr, "worker died at %q after %d of %d\n", part[min(len(part)-1, len(out)-(len(qs)-len(part)))].Files[0], len(out), len(qs))
			}
			st := byte('K')
			if timedOut.Load() {
				st = 'T'
			}
			w.Close()
			w.start()
			// answers are flushed lazily: repeat the remaining ones one by one
			if len(part) == 1 {
				out = append(out, Verdict{St: st})
			} else {
				for _, q := range part[len(out)-(len(qs)-len(part)):] {
					out = append(out, w.Batch([]Req{q})...)
				}
			}
		}
	}
	return out
}

func (w *Worker) Compile(src []byte) Verdict {
	return w.Batch([]Req{{Mode: 'C', FailAt: -1, Files: [][]byte{src}}})[0]
}

// Pool runs requests on all cores; each(i, verdict) is called concurrently.
type Pool struct {
	c  *Ctx
	mu sync.Mutex
	ws []*Worker
}

func (c *Ctx) NewPool() *Pool { return &Pool{c: c} }

func (p *Pool) get() *Worker {
	p.mu.Lock()
	defer p.mu.Unlock()
	if n := len(p.ws); n > 0 {
		w := p.ws[n-1]
		p.ws = p.ws[:n-1]
		return w
	}
	return p.c.NewWorker()
}

func (p *Pool) put(w *Worker) {
	p.mu.Lock()
	p.ws = append(p.ws, w)
	p.mu.Unlock()
}

func (p *Pool) Close() {
	for _, w := range p.ws {
		w.Close()
	}
	p.ws = nil
}

func (p *Pool) One(q Req) Verdict {
	w := p.get()
	defer p.put(w)
	return w.Batch([]Req{q})[0]
}

func (p *Pool) CompileAll(srcs [][]byte, mode byte) []Verdict {
	qs := make([]Req, len(srcs))
	for i, s := range srcs {
		qs[i] = Req{Mode: mode, FailAt: -1, Files: [][]byte{s}}
	}
	return p.All(qs)
}

func (p *Pool) All(qs []Req) []Verdict {
	out := make([]Verdict, len(qs))
	const step = 64
	Parallel((len(qs)+step-1)/step, func(k int) {
		if p.c.Stop() {
			return
		}
		lo, hi := k*step, min((k+1)*step, len(qs))
		w := p.get()
		copy(out[lo:hi], w.Batch(qs[lo:hi]))
		p.put(w)
	})
	return out
}

func (c *Ctx) chunk() int {
	if c.Chunk > 0 {
		return c.Chunk
	}
	return 64
}

// Stream feeds items produced by gen through the worker pool in parallel.
func Stream[T any](c *Ctx, p *Pool, gen func(yield func(T) bool), req func(T) Req, each func(T, Verdict)) {
	ch := make(chan []T, 8)
	var wg sync.WaitGroup
	for k := 0; k < 8; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			w := p.get()
			defer p.put(w)
			for items := range ch {
				if c.Stop() {
					continue
				}
				qs := make([]Req, len(items))
				for i, t := range items {
					qs[i] = req(t)
				}
				for i, v := range w.Batch(qs) {
					each(items[i], v)
				}
			}
		}()
	}
	var buf []T
	gen(func(t T) bool {
		if c.Stop() {
			return false
		}
		buf = append(buf, t)
		if len(buf) >= c.chunk() {
			ch <- buf
			buf = nil
		}
		return true
	})
	if len(buf) > 0 {
		ch <- buf
	}
	close(ch)
	wg.Wait()
}

// realRun compiles src with the real command, for confirmation.
func (c *Ctx) realRun(src []byte, args ...string) Result {
	d := c.Temp()
	defer os.RemoveAll(d)
	mustWrite(filepath.Join(d, "a.b"), src)
	a := append([]string{c.Blang}, args...)
	if len(args) == 0 {
		a = append(a, "--emit-llvm", "-o", "a.ll")
	}
	r := run(Cmd{Dir: d, Env: c.env(), Args: limited(60, append(a, "a.b")...), Timeout: 120 * time.Second})
	if b, err := os.ReadFile(filepath.Join(d, "a.ll")); err == nil && len(args) == 0 {
		r.Out = b
	}
	return r
}

// slow serves a request with the real command; used when the worker cannot be
// built (the names of the compiler's internal functions have changed).
func (c *Ctx) slow(q Req) Verdict {
	if q.Mode == 'F' {
		d := c.Temp()
		defer os.RemoveAll(d)
		mkdir(filepath.Join(d, "in"))
		a := []string{c.Blang, "--emit-llvm"}
		for i, f := range q.Files {
			n := fmt.Sprintf("in/f%d.b", i)
			mustWrite(filepath.Join(d, n), f)
			a = append(a, n)
		}
		r := run(Cmd{Dir: d, Env: c.env(), Args: limited(60, a...), Timeout: 120 * time.Second})
		v := Verdict{St: 'A'}
		if r.Code != 0 {
			v.St, v.Out = 'R', string(r.Err)
		}
		for i := range q.Files {
			b, err := os.ReadFile(filepath.Join(d, fmt.Sprintf("f%d.ll", i)))
			if err != nil {
				v.Out += "\x00-"
			} else {
				v.Out += "\x00" + string(b)
			}
		}
		return v
	}
	if q.FailAt >= 0 {
		return Verdict{St: 'R'}
	}
	r := c.realRun(q.Files[0])
	switch {
	case r.Code == 0:
		return Verdict{St: 'A', Out: string(r.Out)}
	case r.Code == 1:
		return Verdict{St: 'R', Out: string(r.Err)}
	case r.Code == -3:
		return Verdict{St: 'T'}
	case r.Code == 2:
		return Verdict{St: 'P', Out: string(r.Err)}
	}
	return Verdict{St: 'K', Out: string(r.Err)}
}
