package main

import (
	"fmt"
	"os"
	"path/filepath"
	"strings"
)

// p14routines: programs of which only one file uses a certain part of the
// runtime library, divided into files of every kind in every order the system
// linker resolves (an archive follows the files that need it).
func (c *Ctx) p14routines(env []string) {
	type use struct{ name, body, in, out, err string }
	uses := []use{
		{"nothing", "return(3);", "", "", ""},
		{"printf", "printf(\"%d*n\",7);return(3);", "", "7\n", ""},
		{"printd", "printd(-5);return(3);", "", "-5", ""},
		{"printo", "printo(64);return(3);", "", "100", ""},
		{"write", "write('ab');return(3);", "", "ab", ""},
		{"writeb", "writeb('a');return(3);", "", "a", ""},
		{"nwrite", "auto v[1];v[0]=25185;nwrite(1,v,2);return(3);", "", "ab", ""},
		{"read", "return(read()-'a'+3);", "a", "", ""},
		{"nread", "auto v[1];v[0]=0;return(nread(0,v,3));", "abc", "", ""},
		{"char", "return(char(\"abc\",1)-95);", "", "", ""},
		{"lchar", "auto v[1];v[0]=0;lchar(v,0,3);return(v[0]);", "", "", ""},
		{"flush", "flush();return(3);", "", "", ""},
		{"exit", "exit();", "", "", ""},
		{"fout", "extrn fout;fout=1;return(3);", "", "", ""},
		{"stream", "extrn fout;fout=1;printf(\"e\");fout=0;return(3);", "", "", "e"},
	}
	kinds := []string{".b", ".ll", ".s", ".o", ".a"}
	type job struct {
		u     use
		files [][]string // the definitions of each file
		kind  []string
	}
	var jobs []job
	for _, u := range uses {
		// main; the middle function; the user of the routine
		d := []string{"main(){return(f(2));}\n", "f(x){return(h(x));}\n", "h(x){" + u.body + "}\n"}
		for _, k := range kinds[:4] {
			jobs = append(jobs, job{u, [][]string{d}, []string{k}})
		}
		for _, k0 := range kinds[:4] {
			for _, k1 := range kinds {
				jobs = append(jobs, job{u, [][]string{d[:1], d[1:]}, []string{k0, k1}}, job{u, [][]string{d[:2], d[2:]}, []string{k0, k1}})
				if k1 != ".a" {
					jobs = append(jobs, job{u, [][]string{d[1:], d[:1]}, []string{k1, k0}}, job{u, [][]string{d[2:], d[:2]}, []string{k1, k0}})
				}
				for _, k2 := range kinds {
					if !c.Thorough() && k0 != ".b" && k1 != ".a" && k2 != ".a" {
						continue
					}
					jobs = append(jobs, job{u, [][]string{d[:1], d[1:2], d[2:]}, []string{k0, k1, k2}})
					if k1 != ".a" && k2 != ".a" {
						jobs = append(jobs, job{u, [][]string{d[2:], d[1:2], d[:1]}, []string{k2, k1, k0}})
					}
				}
			}
		}
	}
	parts := map[string]string{}
	dir := c.Temp()
	defer os.RemoveAll(dir)
	// the input files, each made once
	type part struct{ key, text, kind string }
	var list []part
	for _, j := range jobs {
		for i, f := range j.files {
			k := strings.Join(f, "") + j.kind[i]
			if _, ok := parts[k]; !ok {
				parts[k] = filepath.Join(dir, fmt.Sprintf("p%d%s", len(parts), j.kind[i]))
				list = append(list, part{k, strings.Join(f, ""), j.kind[i]})
			}
		}
	}
	Parallel(len(list), func(i int) {
		p := list[i]
		out := parts[p.key]
		src := strings.TrimSuffix(out, p.kind) + ".src.b"
		if p.kind == ".b" {
			src = out
		}
		mustWrite(src, []byte(p.text))
		a := map[string][]string{".ll": {"--emit-llvm"}, ".s": {"-S"}, ".o": {"-c"}, ".a": {"-c"}}[p.kind]
		if a == nil {
			return
		}
		to := out
		if p.kind == ".a" {
			to += ".o"
		}
		r := run(Cmd{Dir: dir, Env: env, Args: append(append([]string{c.Blang}, a...), "-o", to, src)})
		if r.Code != 0 {
			c.Violation("split:"+p.key, fmt.Sprintf("%v of a part fails: %s\n%s", a, clip(r.Err), p.text), map[string]string{"part.b": p.text})
		}
		if p.kind == ".a" {
			run(Cmd{Dir: dir, Args: []string{"ar", "crs", out, to}})
		}
	})
	Parallel(len(jobs), func(i int) {
		if c.Stop() {
			return
		}
		j := jobs[i]
		c.States.Add(int64(1 + len(j.files)))
		c.Transitions.Add(int64(len(j.files)))
		c.Traces.Add(1)
		want := "status 3"
		if j.u.name == "exit" {
			want = "status 0"
		}
		want += fmt.Sprintf(", output %q, messages %q", j.u.out, j.u.err)
		once := func() string {
			d := c.Temp()
			defer os.RemoveAll(d)
			args := []string{c.Blang, "-o", "x"}
			for k, f := range j.files {
				args = append(args, parts[strings.Join(f, "")+j.kind[k]])
			}
			r := run(Cmd{Dir: d, Env: env, Args: limited(200, args...)})
			if r.Code != 0 {
				return fmt.Sprintf("does not link: %s", clip(r.Err))
			}
			r = run(Cmd{Dir: d, Args: limited(20, filepath.Join(d, "x")), Stdin: []byte(j.u.in)})
			return fmt.Sprintf("status %d, output %q, messages %q", r.Code, r.Out, r.Err)
		}
		if once() == want {
			return
		}
		var got string
		for k := 0; k < 2; k++ {
			if got = once(); got == want {
				return
			}
		}
		var show strings.Builder
		files := map[string]string{}
		for k, f := range j.files {
			t := strings.Join(f, "")
			files[fmt.Sprintf("file%d.b", k+1)] = t
			fmt.Fprintf(&show, "file %d (given as %s):\n%s", k+1, j.kind[k], t)
		}
		c.Violation("split:routine "+j.u.name, fmt.Sprintf("a program divided into %d files: %s, expected %s\n%s", len(j.files), got, want, show.String()), files)
	})
	c.Outcome("runtime routines used from one file: links", int64(len(jobs)))
	c.Phase("routines")
}
