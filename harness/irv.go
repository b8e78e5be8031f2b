package main

import (
	"bufio"
	"encoding/binary"
	"io"
	"os/exec"
	"path/filepath"
	"sync"
)

// IRV runs LLVM's own parser, verifier, optimizer and code generator on modules.
type IRV struct {
	c   *Ctx
	exe string
	mu  sync.Mutex
	fr  []*irvProc
}

type irvProc struct {
	cmd *exec.Cmd
	w   *bufio.Writer
	wc  io.WriteCloser
	r   *bufio.Reader
}

func (c *Ctx) NewIRV() *IRV {
	v := &IRV{c: c, exe: filepath.Join(c.Scratch, "build", "irv")}
	r := run(Cmd{Args: []string{"clang", "-O1", "-w", "-I/usr/lib/llvm-18/include", "-o", v.exe, filepath.Join(c.Root, "cdrv", "irv.c"), "-L/usr/lib/llvm-18/lib", "-lLLVM-18", "-Wl,-rpath,/usr/lib/llvm-18/lib"}})
	if r.Code != 0 {
		fatal("irv: %s", r.Err)
	}
	return v
}

func (v *IRV) start() *irvProc {
	p := &irvProc{cmd: exec.Command("sh", "-c", "ulimit -v 20000000; exec \"$0\"", v.exe)}
	in, _ := p.cmd.StdinPipe()
	out, _ := p.cmd.StdoutPipe()
	if err := p.cmd.Start(); err != nil {
		fatal("irv: %v", err)
	}
	p.wc, p.w, p.r = in, bufio.NewWriterSize(in, 1<<16), bufio.NewReaderSize(out, 1<<16)
	return p
}

// Check gives 'A' when the module is fine, or the stage that failed: 'P' parse,
// 'V' verify, 'O' optimize, 'C' generate code, 'K' the tool died.
func (v *IRV) Check(mod string, levels uint32) (byte, string) {
	v.mu.Lock()
	var p *irvProc
	if n := len(v.fr); n > 0 {
		p = v.fr[n-1]
		v.fr = v.fr[:n-1]
	}
	v.mu.Unlock()
	if p == nil {
		p = v.start()
	}
	var h [8]byte
	binary.LittleEndian.PutUint32(h[:], levels)
	binary.LittleEndian.PutUint32(h[4:], uint32(len(mod)))
	p.w.Write(h[:])
	p.w.WriteString(mod)
	p.w.Flush()
	var a [5]byte
	if _, err := io.ReadFull(p.r, a[:]); err != nil {
		p.wc.Close()
		p.cmd.Process.Kill()
		p.cmd.Wait()
		return 'K', "the tool died"
	}
	msg := make([]byte, binary.LittleEndian.Uint32(a[1:]))
	io.ReadFull(p.r, msg)
	v.mu.Lock()
	v.fr = append(v.fr, p)
	v.mu.Unlock()
	return a[0], string(msg)
}

func (v *IRV) Close() {
	for _, p := range v.fr {
		p.wc.Close()
		p.cmd.Wait()
	}
	v.fr = nil
}
