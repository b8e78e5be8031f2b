// Overlay file added to package main by the checks: with VERIF_WORKER set, the
// compiler's own front end is run in process on programs received over a pipe.
package main

import (
	"bufio"
	"encoding/binary"
	"errors"
	"fmt"
	"io"
	"os"
	"path/filepath"
	"runtime/debug"
)

type verifReader struct {
	data     []byte
	pos      int
	reads    int
	afterEnd int
	failAt   int  // -1: never
	kind     byte // 'p' persistent error, 't' one error then the rest, 'e' one error then end of file
	failed   bool
	injected bool
}

type verifHang struct{}

func (r *verifReader) Read(p []byte) (int, error) {
	r.reads++
	if r.failAt >= 0 && r.pos >= r.failAt && (!r.failed || r.kind == 'p') {
		r.failed, r.injected = true, true
		r.afterEnd++
		if r.afterEnd > 200000 {
			panic(verifHang{})
		}
		return 0, errors.New("injected read error")
	}
	if r.pos >= len(r.data) || r.failed && r.kind == 'e' {
		r.afterEnd++
		if r.afterEnd > 200000 {
			panic(verifHang{})
		}
		return 0, io.EOF
	}
	if len(p) == 0 {
		return 0, nil
	}
	n := copy(p, r.data[r.pos:])
	if r.failAt > r.pos && r.pos+n > r.failAt {
		n = r.failAt - r.pos
	}
	r.pos += n
	return n, nil
}

func verifCompile(r *verifReader, mode byte) (status byte, out string) {
	defer func() {
		if e := recover(); e != nil {
			if _, ok := e.(verifHang); ok {
				status, out = 'H', "keeps reading after the end of the input"
				return
			}
			status, out = 'P', fmt.Sprintf("%v\n%s", e, debug.Stack())
		}
	}()
	args := NewCompileOptions("blang", nil)
	c := NewCompiler(args)
	if err := ParseDeclarations(NewLexer(args, r), c); err != nil {
		return 'R', err.Error()
	}
	if mode == 'V' { // verdict only
		return 'A', ""
	}
	return 'A', c.GetModule().String()
}

// verifFiles compiles several files with one call of Compile, in dir.
func verifFiles(dir string, files [][]byte, mask byte) (status byte, out string) {
	defer func() {
		if e := recover(); e != nil {
			status, out = 'P', fmt.Sprintf("%v\n%s", e, debug.Stack())
		}
	}()
	_ = mask
	var names []string
	for i := range files {
		names = append(names, filepath.Join(dir, fmt.Sprintf("f%d.b", i)))
		os.WriteFile(names[i], files[i], 0o644)
		os.Remove(fmt.Sprintf("f%d.ll", i))
	}
	args := NewCompileOptions("blang", names)
	args.OutputType = OutputIR
	err := Compile(args)
	status = 'A'
	if err != nil {
		status = 'R'
		out = err.Error()
	}
	for i := range files {
		b, e := os.ReadFile(fmt.Sprintf("f%d.ll", i))
		if e != nil {
			out += "\x00-"
		} else {
			out += "\x00" + string(b)
		}
	}
	return
}

func init() {
	if os.Getenv("VERIF_WORKER") == "" {
		return
	}
	debug.SetMaxStack(512 << 20)
	in := bufio.NewReaderSize(os.NewFile(3, "in"), 1<<16)
	out := bufio.NewWriterSize(os.NewFile(4, "out"), 1<<16)
	dir := os.Getenv("VERIF_WORKER_DIR")
	if dir != "" {
		os.Chdir(dir)
	}
	u32 := func() int {
		var b [4]byte
		if _, err := io.ReadFull(in, b[:]); err != nil {
			os.Exit(0)
		}
		return int(int32(binary.LittleEndian.Uint32(b[:])))
	}
	for {
		mode, err := in.ReadByte()
		if err != nil {
			os.Exit(0)
		}
		kind, _ := in.ReadByte()
		failAt := u32()
		n := u32()
		files := make([][]byte, n)
		for i := range files {
			files[i] = make([]byte, u32())
			io.ReadFull(in, files[i])
		}
		var st byte
		var s string
		if mode == 'F' {
			st, s = verifFiles(dir, files, 0)
		} else {
			r := &verifReader{data: files[0], failAt: failAt, kind: kind}
			st, s = verifCompile(r, mode)
			if failAt >= 0 {
				if r.injected {
					s = "1" + s
				} else {
					s = "0" + s
				}
			}
		}
		var b [5]byte
		b[0] = st
		binary.LittleEndian.PutUint32(b[1:], uint32(len(s)))
		out.Write(b[:])
		out.WriteString(s)
		if in.Buffered() == 0 {
			out.Flush()
		}
	}
}
