package main

import (
	"bytes"
	"encoding/json"
	"fmt"
	"hash/fnv"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"sort"
	"strconv"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

// Ctx is the environment of one check run.
type Ctx struct {
	ID       string
	Tier     string
	Seed     int
	Root     string // /verif
	Repo     string // /repo
	Scratch  string
	Chunk    int // items per batch of Stream (0: default)
	Start    time.Time
	Deadline time.Time
	Blang    string // compiler built from /repo's working tree
	WorkerOK bool
	LibDir   string // directory with libb.a built from /repo's working tree

	mu         sync.Mutex
	known      []knownFinding
	violations int
	knownHit   map[string]bool
	stopped    atomic.Bool
	capped     atomic.Bool

	collect func(o BatchOpts, cs *Case) bool // when set, RunCases only hands over the cases

	Level       string
	States      atomic.Int64
	Transitions atomic.Int64
	Traces      atomic.Int64
	Evals       atomic.Int64
	Distinct    atomic.Int64
	Rule        string
	seen        [64]seenShard
	Samples     []any
	Extra       map[string]any
	Assumptions []string
	outcomes    map[string]int64
}

type knownFinding struct{ prop, key, text string }

func (c *Ctx) Thorough() bool { return c.Tier == "thorough" }

// Pick returns q in the quick tier and t in the thorough tier.
func Pick[T any](c *Ctx, q, t T) T {
	if c.Thorough() {
		return t
	}
	return q
}

func (c *Ctx) Sample(v any) {
	c.mu.Lock()
	defer c.mu.Unlock()
	if len(c.Samples) < 12 {
		c.Samples = append(c.Samples, v)
	}
}

// NoteDistinct counts an evaluated text the first time it is seen.
func (c *Ctx) NoteDistinct(s []byte) {
	h := fnv.New64a()
	h.Write(s)
	k := h.Sum64()
	sh := &c.seen[k&63]
	sh.mu.Lock()
	if sh.m == nil {
		sh.m = map[uint64]struct{}{}
	}
	_, ok := sh.m[k]
	if !ok && len(sh.m) < 4<<20 {
		sh.m[k] = struct{}{}
		c.Distinct.Add(1)
	}
	sh.mu.Unlock()
}

type seenShard struct {
	mu sync.Mutex
	m  map[uint64]struct{}
}

func (c *Ctx) Outcome(k string, n int64) {
	c.mu.Lock()
	c.outcomes[k] += n
	c.mu.Unlock()
}

// Stop tells whether exploration should end (violation found or deadline reached).
func (c *Ctx) Stop() bool {
	if c.stopped.Load() {
		return true
	}
	if time.Now().After(c.Deadline) {
		c.capped.Store(true)
		return true
	}
	return false
}

// Violation reports a confirmed violation. key identifies the specific failing
// input, call site or history, and is matched against the known findings.
func (c *Ctx) Violation(key, what string, files map[string]string) {
	c.mu.Lock()
	defer c.mu.Unlock()
	for _, k := range c.known {
		if k.prop == c.ID && k.key == key {
			if !c.knownHit[key] {
				c.knownHit[key] = true
				fmt.Printf("KNOWN-FINDING: property=%s %s\n", c.ID, k.text)
			}
			return
		}
	}
	key, what = strings.ToValidUTF8(key, "?"), strings.ToValidUTF8(strings.ReplaceAll(what, "\x00", "?"), "?")
	c.violations++
	if c.violations > 3 {
		c.stopped.Store(true)
		return
	}
	dir := filepath.Join(c.Root, "evidence", "replay", fmt.Sprintf("%s-%d", c.ID, c.violations))
	os.RemoveAll(dir)
	os.MkdirAll(dir, 0o755)
	os.WriteFile(filepath.Join(dir, "what.txt"), []byte("key: "+key+"\n"+what+"\n"), 0o644)
	for n, s := range files {
		os.WriteFile(filepath.Join(dir, n), []byte(s), 0o644)
	}
	fmt.Printf("VIOLATION property=%s replay=%s\n", c.ID, dir)
	lines := strings.Split(what, "\n")
	if len(lines) > 25 {
		lines = lines[:25]
	}
	fmt.Printf("  key=%s\n  %s\n", key, strings.Join(lines, "\n  "))
	if c.violations >= 3 {
		c.stopped.Store(true)
	}
}

func (c *Ctx) loadKnown() {
	b, err := os.ReadFile(filepath.Join(c.Root, "known_findings.txt"))
	if err != nil {
		return
	}
	for _, l := range strings.Split(string(b), "\n") {
		// finding: property=P07 key=<key> | text
		if !strings.HasPrefix(l, "finding: ") {
			continue
		}
		head, text, _ := strings.Cut(strings.TrimPrefix(l, "finding: "), " | ")
		f := strings.Fields(head)
		if len(f) < 2 {
			continue
		}
		k := knownFinding{prop: strings.TrimPrefix(f[0], "property="), key: strings.TrimPrefix(strings.Join(f[1:], " "), "key="), text: text}
		c.known = append(c.known, k)
	}
}

func (c *Ctx) writeEvidence() {
	cov := map[string]any{}
	for k, v := range c.Extra {
		cov[k] = v
	}
	switch c.Level {
	case "model_checking":
		cov["states"] = c.States.Load()
		cov["transitions"] = c.Transitions.Load()
		cov["traces_validated_against_impl"] = c.Traces.Load()
	default:
		cov["evaluations"] = c.Evals.Load()
		cov["distinct_nontrivial"] = c.Distinct.Load()
	}
	cov["rule"] = c.Rule
	cov["exhaustive"] = !c.capped.Load() && !c.stopped.Load()
	if c.capped.Load() {
		cov["cap"] = "the internal time limit was reached; the space was covered only in part"
	}
	if len(c.outcomes) > 0 {
		cov["distinct_outcomes"] = c.outcomes
	}
	if c.Samples == nil {
		c.Samples = []any{}
	}
	cov["samples"] = c.Samples
	ev := map[string]any{
		"property": c.ID, "tier": c.Tier, "seed": c.Seed, "level": c.Level,
		"coverage": cov, "wall_s": time.Since(c.Start).Seconds(), "violations": c.violations,
	}
	if len(c.Assumptions) > 0 {
		ev["assumptions"] = c.Assumptions
	}
	b, err := json.MarshalIndent(ev, "", " ")
	if err != nil {
		fatal("evidence: %v", err)
	}
	os.MkdirAll(filepath.Join(c.Root, "evidence"), 0o755)
	if err := os.WriteFile(filepath.Join(c.Root, "evidence", c.ID+".json"), append(b, '\n'), 0o644); err != nil {
		fatal("evidence: %v", err)
	}
}

var cleanupDir string

func fatal(f string, a ...any) {
	fmt.Fprintf(os.Stderr, "verif: error: "+f+"\n", a...)
	if cleanupDir != "" {
		os.RemoveAll(cleanupDir)
	}
	os.Exit(2)
}

// Result of a command.
type Result struct {
	Code   int // exit status; -1 when killed by a signal, -2 when not started, -3 timeout
	Out    []byte
	Err    []byte
	Signal string
}

type Cmd struct {
	Dir     string
	Env     []string
	Args    []string
	Stdin   []byte
	StdinF  *os.File
	Timeout time.Duration
}

func run(cm Cmd) Result {
	cmd := exec.Command(cm.Args[0], cm.Args[1:]...)
	cmd.Dir = cm.Dir
	if cm.Env != nil {
		cmd.Env = cm.Env
	}
	if cm.StdinF != nil {
		cmd.Stdin = cm.StdinF
	} else if cm.Stdin != nil {
		cmd.Stdin = bytes.NewReader(cm.Stdin)
	}
	var o, e bytes.Buffer
	cmd.Stdout = &limitWriter{w: &o, n: 64 << 20}
	cmd.Stderr = &limitWriter{w: &e, n: 4 << 20}
	cmd.WaitDelay = 2 * time.Second
	if err := cmd.Start(); err != nil {
		return Result{Code: -2, Err: []byte(err.Error())}
	}
	to := cm.Timeout
	if to == 0 {
		to = 300 * time.Second
	}
	var timedOut atomic.Bool
	t := time.AfterFunc(to, func() { timedOut.Store(true); cmd.Process.Kill() })
	cmd.Wait()
	t.Stop()
	r := Result{Code: cmd.ProcessState.ExitCode(), Out: o.Bytes(), Err: e.Bytes()}
	if timedOut.Load() {
		r.Code = -3
	} else if r.Code == -1 {
		r.Signal = cmd.ProcessState.String()
	}
	return r
}

type limitWriter struct {
	w io.Writer
	n int
}

func (l *limitWriter) Write(p []byte) (int, error) {
	if l.n > 0 {
		q := p
		if len(q) > l.n {
			q = q[:l.n]
		}
		l.w.Write(q)
		l.n -= len(q)
	}
	return len(p), nil
}

// Parallel runs f(0..n-1) on all cores.
func Parallel(n int, f func(i int)) {
	var next atomic.Int64
	var wg sync.WaitGroup
	w := runtime.NumCPU()
	if w > n {
		w = n
	}
	for k := 0; k < w; k++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				i := int(next.Add(1)) - 1
				if i >= n {
					return
				}
				f(i)
			}
		}()
	}
	wg.Wait()
}

func mustWrite(p string, b []byte) {
	if err := os.WriteFile(p, b, 0o644); err != nil {
		fatal("%v", err)
	}
}

func mkdir(p string) string {
	if err := os.MkdirAll(p, 0o755); err != nil {
		fatal("%v", err)
	}
	return p
}

var tmpSeq atomic.Int64

// Temp makes a fresh scratch directory.
func (c *Ctx) Temp() string {
	return mkdir(filepath.Join(c.Scratch, fmt.Sprintf("t%d", tmpSeq.Add(1))))
}

// buildRepo builds the compiler (with the worker overlay) and the runtime
// library from /repo's working tree, into the scratch directory.
func (c *Ctx) buildRepo() {
	b := mkdir(filepath.Join(c.Scratch, "build"))
	worker := filepath.Join(c.Root, "worker", "zz_verif_worker.go")
	ov := map[string]any{"Replace": map[string]string{filepath.Join(c.Repo, "zz_verif_worker.go"): worker}}
	j, _ := json.Marshal(ov)
	mustWrite(filepath.Join(b, "overlay.json"), j)
	c.Blang = filepath.Join(b, "blang")
	r := run(Cmd{Dir: c.Repo, Args: []string{"go", "build", "-buildvcs=false", "-overlay", filepath.Join(b, "overlay.json"), "-o", c.Blang, "."}})
	c.WorkerOK = r.Code == 0
	if !c.WorkerOK {
		c.Extra["worker"] = "not available: the internal functions it calls have changed; the command is run instead"
		if r := run(Cmd{Dir: c.Repo, Args: []string{"go", "build", "-buildvcs=false", "-o", c.Blang, "."}}); r.Code != 0 {
			fatal("build of the compiler failed: %s%s", r.Out, r.Err)
		}
	}
	c.LibDir = filepath.Join(b, "runtime")
	if r := run(Cmd{Args: []string{"cp", "-a", filepath.Join(c.Repo, "runtime"), c.LibDir}}); r.Code != 0 {
		fatal("copy: %s", r.Err)
	}
	if r := run(Cmd{Dir: c.LibDir, Args: []string{"make", "-B", "-s", "all"}}); r.Code != 0 {
		fatal("build of the runtime failed: %s%s", r.Out, r.Err)
	}
}

func (c *Ctx) env(extra ...string) []string {
	e := []string{"PATH=" + os.Getenv("PATH"), "HOME=" + filepath.Join(c.Scratch, "nohome"), "LANG=C.UTF-8", "LC_ALL=C.UTF-8", "TMPDIR=" + c.Scratch}
	return append(e, extra...)
}

type checkFn func(*Ctx)

var checks = map[string]checkFn{}

func main() {
	if len(os.Args) < 2 {
		var ids []string
		for k := range checks {
			ids = append(ids, k)
		}
		sort.Strings(ids)
		fmt.Println("usage: verifcheck PROPERTY; known:", ids)
		os.Exit(2)
	}
	c := &Ctx{ID: os.Args[1], Tier: os.Getenv("VERIF_TIER"), Start: time.Now(), Repo: "/repo", Root: os.Getenv("VERIF_ROOT"),
		knownHit: map[string]bool{}, outcomes: map[string]int64{}, Extra: map[string]any{}}
	if r := os.Getenv("VERIF_REPO"); r != "" {
		c.Repo = r
	}
	if c.Root == "" {
		c.Root = "/verif"
	}
	if c.Tier != "thorough" {
		c.Tier = "quick"
	}
	c.Seed, _ = strconv.Atoi(os.Getenv("VERIF_SEED"))
	limit := Pick(c, 300*time.Second, 3600*time.Second)
	if s, err := strconv.Atoi(os.Getenv("VERIF_LIMIT")); err == nil {
		limit = time.Duration(s) * time.Second
	}
	c.Deadline = c.Start.Add(limit)
	fn := checks[c.ID]
	if fn == nil {
		fatal("unknown property %s", c.ID)
	}
	base := "/dev/shm"
	if f, err := os.CreateTemp(base, "verif-probe-"); err != nil {
		base = os.TempDir()
	} else {
		f.Close()
		os.Remove(f.Name())
	}
	d, err := os.MkdirTemp(base, "verif-"+c.ID+"-")
	if err != nil {
		fatal("%v", err)
	}
	c.Scratch, cleanupDir = d, d
	defer func() {
		if e := recover(); e != nil {
			buf := make([]byte, 1<<16)
			buf = buf[:runtime.Stack(buf, false)]
			fatal("harness panic: %v\n%s", e, buf)
		}
	}()
	c.loadKnown()
	c.Phase("start")
	c.buildRepo()
	c.Phase("build")
	fn(c)
	c.Phase("end")
	c.writeEvidence()
	os.RemoveAll(d)
	if c.violations > 0 {
		os.Exit(1)
	}
	fmt.Printf("OK property=%s tier=%s states=%d transitions=%d traces=%d evaluations=%d exhaustive=%v wall=%.1fs\n", c.ID, c.Tier,
		c.States.Load(), c.Transitions.Load(), c.Traces.Load(), c.Evals.Load(), !c.capped.Load(), time.Since(c.Start).Seconds())
}

var phaseStart time.Time

// Phase notes in the evidence how long each part took.
func (c *Ctx) Phase(name string) {
	now := time.Now()
	if !phaseStart.IsZero() && os.Getenv("VERIF_TIMING") != "" {
		fmt.Fprintf(os.Stderr, "%8.1fs  -> %s\n", now.Sub(phaseStart).Seconds(), name)
	}
	phaseStart = now
}
