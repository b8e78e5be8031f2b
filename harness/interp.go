package main

import "strings"

// Reference semantics of B: a small abstract machine. Statements are flattened
// into jumps; expressions are evaluated over a word-addressed symbolic memory.

type opk int

const (
	oExpr opk = iota
	oBrz      // branch to To when E is zero
	oJmp
	oRet
	oSwitch
	oAuto
)

type ins struct {
	k     opk
	e     *Expr
	to    int
	cases map[int64]int
	decls []Decl
}

type code struct{ ins []ins }

type flat struct {
	c      *code
	labels map[string]int
	gotos  map[int]string
}

func (f *flat) emit(i ins) int { f.c.ins = append(f.c.ins, i); return len(f.c.ins) - 1 }

func (f *flat) stmt(s *Stmt, sw map[int64]int) {
	switch s.K {
	case SExpr:
		f.emit(ins{k: oExpr, e: s.E})
	case SBlock:
		for _, x := range s.List {
			f.stmt(x, sw)
		}
	case SIf:
		b := f.emit(ins{k: oBrz, e: s.E})
		f.stmt(s.S, nil)
		if s.S2 == nil {
			f.c.ins[b].to = len(f.c.ins)
			return
		}
		j := f.emit(ins{k: oJmp})
		f.c.ins[b].to = len(f.c.ins)
		f.stmt(s.S2, nil)
		f.c.ins[j].to = len(f.c.ins)
	case SWhile:
		top := len(f.c.ins)
		b := f.emit(ins{k: oBrz, e: s.E})
		f.stmt(s.S, nil)
		f.emit(ins{k: oJmp, to: top})
		f.c.ins[b].to = len(f.c.ins)
	case SSwitch:
		m := map[int64]int{}
		i := f.emit(ins{k: oSwitch, e: s.E, cases: m})
		f.stmt(s.S, m)
		f.c.ins[i].to = len(f.c.ins)
	case SCase:
		sw[s.Val] = len(f.c.ins)
		f.stmt(s.S, sw)
	case SLabel:
		f.labels[s.Name] = len(f.c.ins)
		f.stmt(s.S, sw)
	case SGoto:
		f.gotos[f.emit(ins{k: oJmp})] = s.Name
	case SReturn:
		f.emit(ins{k: oRet, e: s.E})
	case SAuto:
		f.emit(ins{k: oAuto, decls: s.Decls})
	}
}

func flatten(s *Stmt) *code {
	f := &flat{c: &code{}, labels: map[string]int{}, gotos: map[int]string{}}
	f.stmt(s, nil)
	for i, n := range f.gotos {
		t, ok := f.labels[n]
		if !ok {
			panic("reference: undefined label " + n)
		}
		f.c.ins[i].to = t
	}
	return f.c
}

// End of a run.
type End byte

const (
	EndReturn End = iota
	EndCut        // out of choices or trace space: the rest is not observed
	EndDrop       // behaviour not defined by the language: the run is not used
)

type stop struct{ end End }

const maxTrace = 96

type Machine struct {
	u       *Unit
	funcs   map[string]*Func
	fnAddr  map[string]int64
	addrFn  map[int64]*Func
	globals map[string]int64
	mem     map[int64]int64
	undef   map[int64]bool // words without a defined value
	bytes   map[int64]byte // string storage
	next    int64
	dom     []int64
	choices []byte
	pos     int
	maxCh   int
	trace   []int64
	steps   int
	depth   int
	extern  func(m *Machine, name string, args []int64) (int64, bool)
}

const stepLimit = 20000

// NewMachine loads a unit: lays out externals with their initial values.
func NewMachine(u *Unit, dom []int64, maxCh int) *Machine {
	m := &Machine{u: u, funcs: map[string]*Func{}, dom: dom, maxCh: maxCh, fnAddr: map[string]int64{}, addrFn: map[int64]*Func{}}
	for i, f := range u.Funcs {
		m.funcs[f.Name] = f
		a := int64(1)<<61 + int64(i)*16
		m.fnAddr[f.Name] = a
		m.addrFn[a] = f
		if f.code == nil {
			f.code = flatten(f.Body)
		}
	}
	m.reset()
	return m
}

func (m *Machine) reset() {
	m.mem = map[int64]int64{}
	m.globals = nil
	m.bytes = nil
	m.undef = nil
	m.next = 1 << 40
	if len(m.u.Globs) > 0 {
		m.globals = map[string]int64{}
	}
	for _, g := range m.u.Globs {
		words := int64(1)
		if g.Vec {
			n := g.Size
			if n < int64(len(g.Inits)) {
				n = int64(len(g.Inits))
			}
			if n < 1 {
				n = 1
			}
			words = n
			data := m.alloc(n)
			base := m.alloc(1)
			m.mem[base] = data
			for i, in := range g.Inits {
				m.mem[data+int64(i)*8] = m.initVal(in)
			}
			m.globals[g.Name] = base
			continue
		}
		if len(g.Inits) > 1 {
			words = int64(len(g.Inits))
		}
		a := m.alloc(words)
		for i, in := range g.Inits {
			m.mem[a+int64(i)*8] = m.initVal(in)
		}
		m.globals[g.Name] = a
	}
}

func (m *Machine) initVal(in Init) int64 {
	if in.IsStr {
		return m.str(in.Str)
	}
	return in.Val
}

func (m *Machine) str(b []byte) int64 {
	if m.bytes == nil {
		m.bytes = map[int64]byte{}
	}
	a := m.next
	m.next += 1 << 20
	for i, c := range b {
		m.bytes[a+int64(i)] = c
	}
	m.bytes[a+int64(len(b))] = 0
	return a
}

// alloc reserves words and zeroes them; objects are far apart.
func (m *Machine) alloc(words int64) int64 {
	a := m.next
	m.next += (words*8 + (1 << 16)) &^ 0xffff
	for i := int64(0); i < words; i++ {
		m.mem[a+i*8] = 0
	}
	return a
}

func (m *Machine) drop() { panic(stop{EndDrop}) }

func (m *Machine) load(a int64) int64 {
	v, ok := m.mem[a]
	if !ok || (m.undef != nil && m.undef[a]) {
		m.drop()
	}
	return v
}

func (m *Machine) store(a, v int64) {
	if _, ok := m.mem[a]; !ok {
		m.drop()
	}
	if m.undef != nil {
		delete(m.undef, a)
	}
	m.mem[a] = v
}

func (m *Machine) event(v int64) {
	if len(m.trace) >= maxTrace {
		panic(stop{EndCut})
	}
	m.trace = append(m.trace, v)
}

func (m *Machine) choose() int64 {
	if m.pos >= m.maxCh {
		panic(stop{EndCut})
	}
	if m.pos >= len(m.choices) {
		m.choices = append(m.choices, 0)
	}
	v := m.dom[m.choices[m.pos]]
	m.pos++
	return v
}

type frame struct{ vars map[string]int64 }

func (m *Machine) addr(f *frame, e *Expr) int64 {
	switch e.K {
	case KVar:
		if a, ok := f.vars[e.Name]; ok {
			return a
		}
		if a, ok := m.globals[e.Name]; ok {
			return a
		}
		panic("reference: unknown variable " + e.Name)
	case KDeref:
		return m.eval(f, e.A)
	case KIndex:
		a := m.eval(f, e.A)
		return a + 8*m.eval(f, e.B)
	case KPreInc:
		a := m.addr(f, e.A)
		m.store(a, m.load(a)+1)
		return a
	case KPreDec:
		a := m.addr(f, e.A)
		m.store(a, m.load(a)-1)
		return a
	}
	panic("reference: not an lvalue")
}

func b2i(b bool) int64 {
	if b {
		return 1
	}
	return 0
}

func (m *Machine) binop(op string, a, b int64) int64 {
	switch op {
	case "+":
		return a + b
	case "-":
		return a - b
	case "*":
		return a * b
	case "/":
		if b == 0 || (b == -1 && a == -1<<63) {
			m.drop()
		}
		return a / b
	case "%":
		if b == 0 || (b == -1 && a == -1<<63) {
			m.drop()
		}
		return a % b
	case "<<":
		if b < 0 || b > 63 {
			m.drop()
		}
		return a << uint(b)
	case ">>":
		if b < 0 || b > 63 {
			m.drop()
		}
		return a >> uint(b)
	case "<":
		return b2i(a < b)
	case "<=":
		return b2i(a <= b)
	case ">":
		return b2i(a > b)
	case ">=":
		return b2i(a >= b)
	case "==":
		return b2i(a == b)
	case "!=":
		return b2i(a != b)
	case "&":
		return a & b
	case "|":
		return a | b
	}
	panic("op " + op)
}

func (m *Machine) eval(f *frame, e *Expr) int64 {
	m.steps++
	if m.steps > stepLimit {
		m.drop()
	}
	switch e.K {
	case KNum:
		return e.Val
	case KLit:
		if e.Name[0] == '"' {
			return m.str(decodeString(e.Name))
		}
		return e.Val
	case KVar:
		if _, ok := f.vars[e.Name]; !ok {
			if _, ok := m.globals[e.Name]; !ok {
				if a, ok := m.fnAddr[e.Name]; ok {
					return a
				}
			}
		}
		return m.load(m.addr(f, e))
	case KParen:
		return m.eval(f, e.A)
	case KUn:
		v := m.eval(f, e.A)
		if e.Op == "-" {
			return -v
		}
		return b2i(v == 0)
	case KBin:
		a := m.eval(f, e.A)
		b := m.eval(f, e.B)
		return m.binop(e.Op, a, b)
	case KCond:
		if m.eval(f, e.A) != 0 {
			return m.eval(f, e.B)
		}
		return m.eval(f, e.C)
	case KAsg:
		a := m.addr(f, e.A)
		r := m.eval(f, e.B)
		if e.Op != "" {
			r = m.binop(e.Op, m.load(a), r)
		}
		m.store(a, r)
		return r
	case KPreInc, KPreDec, KDeref, KIndex:
		return m.load(m.addr(f, e))
	case KPostInc:
		a := m.addr(f, e.A)
		v := m.load(a)
		m.store(a, v+1)
		return v
	case KPostDec:
		a := m.addr(f, e.A)
		v := m.load(a)
		m.store(a, v-1)
		return v
	case KAddr:
		return m.addr(f, e.A)
	case KCall:
		return m.call(f, e)
	}
	panic("eval")
}

func (m *Machine) call(f *frame, e *Expr) int64 {
	var fn *Func
	name := ""
	if e.A.K == KVar {
		name = e.A.Name
		if _, ok := f.vars[name]; !ok {
			if _, ok := m.globals[name]; !ok {
				fn = m.funcs[name]
				if fn == nil {
					return m.builtin(f, name, e.Args)
				}
			}
		}
	}
	if fn == nil {
		fn = m.addrFn[m.eval(f, e.A)]
		if fn == nil {
			m.drop()
		}
	}
	args := make([]int64, len(e.Args))
	for i, a := range e.Args {
		args[i] = m.eval(f, a)
	}
	return m.invoke(fn, args)
}

func (m *Machine) invoke(fn *Func, args []int64) int64 {
	m.depth++
	if m.depth > 2000 {
		m.drop()
	}
	fr := &frame{vars: make(map[string]int64, len(fn.Params)+2)}
	for i, p := range fn.Params {
		a := m.alloc(1)
		if i < len(args) {
			m.mem[a] = args[i]
		} else {
			m.setUndef(a) // using its value drops the run
		}
		fr.vars[p] = a
	}
	// autos exist from entry, zero
	for i := range fn.code.ins {
		if fn.code.ins[i].k == oAuto {
			for _, d := range fn.code.ins[i].decls {
				m.auto(fr, d, true)
			}
		}
	}
	r := m.exec(fr, fn.code)
	m.depth--
	return r
}

func (m *Machine) auto(fr *frame, d Decl, fresh bool) {
	if !d.Vec {
		if fresh {
			fr.vars[d.Name] = m.alloc(1)
		}
		m.mem[fr.vars[d.Name]] = 0
		return
	}
	if fresh {
		n := d.Size
		if n < 1 {
			n = 1
		}
		fr.vars[d.Name] = m.alloc(1)
		data := m.alloc(n)
		// contents of automatic vectors are not defined before the first store
		for i := int64(0); i < n; i++ {
			m.setUndef(data + i*8)
		}
		m.mem[fr.vars[d.Name]] = data
		m.mem[-fr.vars[d.Name]] = data
		return
	}
	m.mem[fr.vars[d.Name]] = m.mem[-fr.vars[d.Name]]
}

func (m *Machine) setUndef(a int64) {
	if m.undef == nil {
		m.undef = map[int64]bool{}
	}
	m.undef[a] = true
}

func (m *Machine) exec(fr *frame, c *code) int64 {
	pc := 0
	for pc < len(c.ins) {
		m.steps++
		if m.steps > stepLimit {
			m.drop()
		}
		i := &c.ins[pc]
		pc++
		switch i.k {
		case oExpr:
			m.eval(fr, i.e)
		case oBrz:
			if m.eval(fr, i.e) == 0 {
				pc = i.to
			}
		case oJmp:
			pc = i.to
		case oRet:
			if i.e == nil {
				return 0
			}
			return m.eval(fr, i.e)
		case oSwitch:
			v := m.eval(fr, i.e)
			if t, ok := i.cases[v]; ok {
				pc = t
			} else {
				pc = i.to
			}
		case oAuto:
			for _, d := range i.decls {
				m.auto(fr, d, false)
			}
		}
	}
	return 0
}

// builtin functions provided by the C driver.
func (m *Machine) builtin(f *frame, name string, ax []*Expr) int64 {
	args := make([]int64, len(ax))
	for i, a := range ax {
		args[i] = m.eval(f, a)
	}
	if m.extern != nil {
		if v, ok := m.extern(m, name, args); ok {
			return v
		}
	}
	switch name {
	case "c": // next choice
		return m.choose()
	case "o": // event, then next choice
		m.event(args[0])
		return m.choose()
	case "t": // event; returns its argument
		m.event(args[0])
		return args[0]
	case "n": // n(count, ...): events count and each argument; returns last
		for i := int64(0); i <= args[0]; i++ {
			m.event(args[i])
		}
		return args[args[0]]
	case "d": // growth of the stack since the first call of d in this run
		return 0
	case "b": // byte at address
		v, ok := m.bytes[args[0]+args[1]]
		if !ok {
			m.drop()
		}
		return int64(v)
	case "h": // h(p, n): event: hash of n bytes at p
		h := uint64(14695981039346656037)
		for i := int64(0); i < args[1]; i++ {
			v, ok := m.bytes[args[0]+i]
			if !ok {
				m.drop()
			}
			h = (h ^ uint64(v)) * 1099511628211
		}
		m.event(int64(h))
		return int64(h)
	}
	panic("reference: unknown function " + name)
}

// Run executes the entry function with the given choices.
func (m *Machine) Run(entry string, choices []byte) (end End, ret int64) {
	m.choices = choices
	m.pos, m.steps, m.depth = 0, 0, 0
	m.trace = m.trace[:0]
	m.reset()
	defer func() {
		if e := recover(); e != nil {
			s, ok := e.(stop)
			if !ok {
				panic(e)
			}
			end, ret = s.end, 0
		}
	}()
	ret = m.invoke(m.funcs[entry], nil)
	return EndReturn, ret
}

func hashRun(end End, ret int64, trace []int64) uint64 {
	h := uint64(1469598103934665603)
	mix := func(v uint64) {
		h ^= v
		h *= 1099511628211
		h ^= h >> 29
	}
	for _, t := range trace {
		mix(uint64(t))
	}
	if end == EndReturn {
		mix(0x1234)
		mix(uint64(ret))
	} else {
		mix(0x4321)
	}
	return h
}

func decodeString(src string) []byte {
	var out []byte
	src = strings.ReplaceAll(src, hashMark, "#")
	s := src[1 : len(src)-1]
	for i := 0; i < len(s); i++ {
		c := s[i]
		if c == '*' {
			i++
			c = escapeValue(s[i])
		}
		out = append(out, c)
	}
	return out
}

func escapeValue(c byte) byte {
	switch c {
	case '0', 'e':
		return 0
	case '(':
		return '{'
	case ')':
		return '}'
	case 't':
		return 9
	case 'n':
		return 10
	case 'r':
		return 13
	}
	return c // * ' "
}
