package main

import (
	"bytes"
	"fmt"
	"path/filepath"
	"strconv"
	"strings"
	"sync"
	"time"
)

func init() { checks["P16"] = checkP16; checks["P17"] = checkP17 }

type rtMode struct {
	name  string
	depth int
}

// rtBuild links the runtime library of the working tree with the C driver.
func (c *Ctx) rtBuild() string {
	exe := filepath.Join(c.Scratch, "rt")
	r := run(Cmd{Args: []string{"clang", "-O1", "-w", "-fno-strict-aliasing", "-fwrapv", "-no-pie", "-o", exe, filepath.Join(c.Root, "cdrv", "rt.c"), filepath.Join(c.LibDir, "libb.a")}})
	if r.Code != 0 {
		fatal("the runtime cannot be linked with the driver: %s", clip(r.Err))
	}
	return exe
}

type rtResult struct {
	bads             map[string]string // key -> text
	order            []string
	states, trans, n int64
	done             bool
}

func (c *Ctx) rtRun(exe string, m rtMode, i, n int) rtResult {
	dir := c.Temp()
	r := run(Cmd{Dir: dir, Args: limited(int(time.Until(c.Deadline).Seconds())+60, exe, m.name, strconv.Itoa(i), strconv.Itoa(n), strconv.Itoa(m.depth)), Timeout: time.Until(c.Deadline) + 30*time.Second})
	res := rtResult{bads: map[string]string{}}
	for _, l := range strings.Split(string(r.Out), "\n") {
		switch {
		case strings.HasPrefix(l, "BAD "):
			k, t, _ := strings.Cut(l[4:], ": ")
			if _, ok := res.bads[k]; !ok {
				res.order = append(res.order, k)
			}
			res.bads[k] = t
		case strings.HasPrefix(l, "DONE "):
			fmt.Sscanf(l, "DONE %d %d %d", &res.states, &res.trans, &res.n)
			res.done = true
		}
	}
	if !res.done {
		if time.Now().After(c.Deadline) {
			c.capped.Store(true)
			return res
		}
		fatal("driver mode %s died: status %d %s %s", m.name, r.Code, r.Signal, clip(bytes.Join([][]byte{r.Out, r.Err}, nil)))
	}
	return res
}

func (c *Ctx) rtModes(modes []rtMode) {
	exe := c.rtBuild()
	const parts = 16
	for _, m := range modes {
		var mu sync.Mutex
		var total int64
		seen := map[string]bool{}
		Parallel(parts, func(i int) {
			if c.Stop() {
				return
			}
			res := c.rtRun(exe, m, i, parts)
			c.States.Add(res.states)
			c.Transitions.Add(res.trans)
			c.Traces.Add(res.n)
			mu.Lock()
			total += res.n
			mu.Unlock()
			if len(res.order) == 0 {
				return
			}
			again := c.rtRun(exe, m, i, parts)
			// A failure counts when its kind repeats: the text may hold addresses.
			repeated := map[string]bool{}
			for _, k := range again.order {
				repeated[strings.Fields(k)[0]] = true
			}
			for _, k := range res.order {
				if !repeated[strings.Fields(k)[0]] {
					continue
				}
				mu.Lock()
				word := m.name + ":" + strings.Fields(k)[0]
				first := !seen[word]
				seen[word] = true
				mu.Unlock()
				if first {
					c.Violation("runtime:"+word, fmt.Sprintf("%s: %s\nrepeat with: build the driver as in harness/p16.go, then: rt %s %d %d %d", k, res.bads[k], m.name, i, parts, m.depth), nil)
				}
			}
		})
		c.Outcome(m.name+" traces", total)
		c.Phase(m.name)
	}
}

func checkP16(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "states: states of the reference output machine (stream selector, bytes delivered so far on each stream) along every enumerated call sequence; transitions: calls (for printf, steps through the format); each trace is replayed on the runtime library built from the working tree, with both streams captured in memory, and the bytes compared"
	c.Assumptions = []string{"standard output and standard error accept every write in full (no short writes)", "flush() is called before the streams are compared, so that a buffered implementation would be accepted"}
	c.Extra["bounds"] = map[string]any{"format length": Pick(c, 7, 8), "calls in a stream history": Pick(c, 6, 7), "conversions in one call": 40}
	c.rtModes([]rtMode{{"numbers", 2}, {"characters", 2}, {"blocks", 1}, {"formats", Pick(c, 2, 3)}, {"streams", Pick(c, 6, 7)}, {"streams", 5}, {"streams", 1}, {"streams", 2}, {"streams", 3}, {"streams", 4}})
	c.Sample(map[string]any{"format": "a%d,%o;%dz%s", "arguments": "every boundary number"})
	c.Sample(map[string]any{"history": "fout=1; printf; write; nwrite(1); fout=0"})
	c.Sample(map[string]any{"write": "every word over the bytes 0, 'a', 255, 1"})
}

func checkP17(c *Ctx) {
	c.Level = "model_checking"
	c.Rule = "states: states of the reference input machine (bytes waiting, end of input, contents of the buffers) along every enumerated history; transitions: arrivals of input and calls; each trace is replayed on the runtime library with standard input a real pipe, file, directory or closed descriptor, and results and the whole surrounding memory compared"
	c.Assumptions = []string{"signals do not interrupt the reads"}
	c.Extra["bounds"] = map[string]any{"operations in an input history": Pick(c, 7, 8), "length of an input stream": Pick(c, 6, 7), "positions": 48}
	c.rtModes([]rtMode{{"reading", Pick(c, 1, 2)}, {"inputs", Pick(c, 7, 8)}, {"inputs", 5}, {"inputs", 6}, {"inputs", 1}, {"inputs", 2}, {"inputs", 3}, {"inputs", 4}, {"nreads", 1}, {"bytes", Pick(c, 1, 2)}})
	c.Sample(map[string]any{"history": "arrive 3; nread 2; read; end; read; nread 4"})
	c.Sample(map[string]any{"stream": "\\0 4 a 128 255", "then": "four reads after the end"})
	c.Sample(map[string]any{"bytes": "lchar(s, 7, 255) over bytes 128, then char around it"})
}
