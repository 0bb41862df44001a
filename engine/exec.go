package main

import (
	"container/heap"
	"fmt"
	"go/types"
	"os"
	"strings"
	"time"

	"golang.org/x/tools/go/ssa"
)

// M is one worker: a heap, a term context and a solver.
type M struct {
	p     *Prog
	ex    *Explorer
	id    int
	tc    *TermCtx
	sol   *Solver
	epoch uint32

	globals []*Obj
	trail   []trailEnt
	mapSave map[*Map]*Map

	stack  []V
	sp     int
	frames []*Frame
	depth  int
	steps  int64
	limit  int64
	spec   bool

	// path state
	prefix    []uint64
	dpos      int
	dec       []uint64
	path      *pathState
	enc       map[*Term]encOrigin
	atn       *atnState
	curTask   *Task
	nforks    int
	warm      bool
	ruleDepth int
	noCutPath bool
	conc      *conc
	wantConc  bool
	crec      bool // accesses to shared memory are being recorded
	forks     []work
	noSum     bool
	inits     map[*ssa.Package]bool
}

type trailEnt struct {
	o   *Obj
	off int
	old V
}

type Frame struct {
	m         *M
	fn        *Fn
	regs      []V
	caller    *Frame
	defers    *deferred
	panicking bool
	panicVal  any
	done      bool
	result    V
	depth     int
	sp        int
}

type deferred struct {
	clo  *Closure
	fn   *Fn
	args []V
	next *deferred
}

func (fr *Frame) get(o opnd) V {
	if o.reg >= 0 {
		return fr.regs[o.reg]
	}
	if o.reg == -1 {
		return o.c
	}
	return V{p: fr.m.global(-2 - o.reg)}
}

func tv(t *Term) V {
	if t.op == OpConst {
		return V{n: t.k}
	}
	return V{p: t}
}

func (m *M) term(v V, w uint8) *Term {
	if v.p == nil {
		return m.tc.Const(v.n, w)
	}
	if t, ok := v.p.(*Term); ok {
		return t
	}
	panic(engErr("term of %T", v.p))
}

func (m *M) global(id int) *Obj {
	for id >= len(m.globals) {
		m.globals = append(m.globals, nil)
	}
	o := m.globals[id]
	if o == nil {
		m.p.mu.Lock()
		g := m.p.glist[id]
		m.p.mu.Unlock()
		ti := m.p.typ(g.Type().Underlying().(*types.Pointer).Elem())
		o = &Obj{cells: make([]V, ti.cells), epoch: 0, site: g.String()}
		m.globals[id] = o
	}
	return o
}

func (m *M) log(o *Obj, off int) {
	if o.epoch > m.epoch {
		panic(engErr("store to an object of a later epoch"))
	}
	m.trail = append(m.trail, trailEnt{o, off, o.cells[off]})
}

const stackSize = 1 << 20

func (m *M) push(n int) []V {
	if m.sp+n > len(m.stack) {
		m.abort("limit", "value stack exhausted")
	}
	r := m.stack[m.sp : m.sp+n : m.sp+n]
	clear(r)
	m.sp += n
	return r
}

func (m *M) pop(mark int) { m.sp = mark }

func (m *M) abort(kind, msg string) { panic(pathAbort{kind, msg}) }

func (m *M) unsupported(f string, a ...any) {
	panic(pathAbort{"unsupported", fmt.Sprintf(f, a...)})
}

type specAbort struct{}

func (m *M) rtPanic(msg string) {
	if m.spec {
		panic(specAbort{})
	}
	if m.ex.debug {
		fmt.Fprintln(os.Stderr, "runtime panic:", msg, m.where())
	}
	panic(targetPanic{V{p: &Iface{m.p.tRTErr, V{p: "runtime error: " + msg}}}})
}

func shortName(s string) string {
	s = strings.ReplaceAll(s, antlrPkg, "antlr")
	s = strings.ReplaceAll(s, parserPkg, "parser")
	return strings.ReplaceAll(s, repoPkg, "rfc5322")
}

func (m *M) where() string {
	s := ""
	for i := m.depth - 1; i >= 0 && i > m.depth-7; i-- {
		if i < len(m.frames) && m.frames[i].fn != nil {
			s += " < " + shortName(m.frames[i].fn.name)
		}
	}
	return s
}

func (m *M) callFn(fn *Fn, args ...V) V {
	fn.ensure()
	mark := m.sp
	n := fn.nregs
	if n < len(args) {
		n = len(args)
	}
	regs := m.push(n)
	copy(regs, args)
	r := m.run(fn, regs, nil)
	m.pop(mark)
	return r
}

func (m *M) callClosure(cl *Closure, args []V, caller *Frame) V {
	if cl.bound != nil {
		m.unsupported("builtin %s as a value", cl.bound.Name())
	}
	fn := cl.fn
	fn.ensure()
	mark := m.sp
	regs := m.push(fn.nregs)
	copy(regs, args)
	copy(regs[fn.nparams:], cl.binds)
	r := m.run(fn, regs, caller)
	m.pop(mark)
	return r
}

func (m *M) run(fn *Fn, regs []V, caller *Frame) V {
	if fn.intr != nil {
		return fn.intr(m, caller, regs[:fn.nparams])
	}
	if fn.isRule {
		return m.runRule(fn, regs, caller)
	}
	return m.runBody(fn, regs, caller)
}

func (m *M) runBody(fn *Fn, regs []V, caller *Frame) V {
	if fn.noBody {
		m.unsupported("no body for %s", fn.name)
	}
	if m.epoch > 0 && !fn.touched.Load() {
		fn.touched.Store(true)
	}
	if m.depth >= len(m.frames) {
		if m.depth > 20000 {
			m.abort("limit", "call depth")
		}
		m.frames = append(m.frames, &Frame{})
	}
	fr := m.frames[m.depth]
	*fr = Frame{m: m, fn: fn, regs: regs, caller: caller, depth: m.depth, sp: m.sp}
	m.depth++
	var r V
	if !fn.defers && fn.recov == nil {
		r = m.exec(fr, fn.blocks[0])
	} else {
		r = m.runDeferring(fr)
	}
	m.depth = fr.depth
	return r
}

func (m *M) runDeferring(fr *Frame) (res V) {
	r := m.protected(fr, func() V { return m.exec(fr, fr.fn.blocks[0]) })
	if !fr.panicking {
		return r
	}
	// a target panic escaped the body
	for fr.panicking {
		m.depth = fr.depth + 1
		m.sp = fr.sp
		if fr.defers == nil {
			panic(fr.panicVal)
		}
		m.runDefersPanicking(fr)
	}
	if fr.fn.recov != nil {
		return m.exec(fr, fr.fn.recov)
	}
	// no named results: zero results
	sig := fr.fn.f.Signature.Results()
	switch sig.Len() {
	case 0:
		return V{}
	case 1:
		return m.p.typ(sig.At(0).Type()).zero()
	}
	t := &Tuple{}
	for i := 0; i < sig.Len(); i++ {
		t.v = append(t.v, m.p.typ(sig.At(i).Type()).zero())
	}
	return V{p: t}
}

// protected runs f, turning a target panic into fr.panicking.
func (m *M) protected(fr *Frame, f func() V) (r V) {
	defer func() {
		if x := recover(); x != nil {
			if tp, ok := x.(targetPanic); ok {
				fr.panicking = true
				fr.panicVal = tp
				return
			}
			panic(x)
		}
	}()
	return f()
}

// runDefersPanicking runs the pending deferred calls while fr panics; stops
// when a deferred call recovers or panics anew (fr.panicking stays true).
func (m *M) runDefersPanicking(fr *Frame) {
	m.protected(fr, func() V {
		for fr.defers != nil && fr.panicking {
			m.runOneDefer(fr)
		}
		// after a recovery the remaining deferred calls still run
		for fr.defers != nil {
			m.runOneDefer(fr)
		}
		return V{}
	})
}

func (m *M) runOneDefer(fr *Frame) {
	d := fr.defers
	fr.defers = d.next
	if d.fn != nil {
		d.fn.ensure()
		mark := m.sp
		regs := m.push(max(d.fn.nregs, len(d.args)))
		copy(regs, d.args)
		m.run(d.fn, regs, fr)
		m.pop(mark)
		return
	}
	if d.clo.bound != nil {
		m.unsupported("deferred builtin %s", d.clo.bound.Name())
	}
	m.callClosure(d.clo, d.args, fr)
}

func (m *M) runDefers(fr *Frame) {
	for fr.defers != nil {
		m.runOneDefer(fr)
	}
}

// doRecover implements recover() called in frame fr.
func (m *M) doRecover(fr *Frame) V {
	c := fr.caller
	if c != nil && c.panicking {
		c.panicking = false
		return c.panicVal.(targetPanic).v
	}
	return V{}
}

func (m *M) exec(fr *Frame, b *Block) V {
	for {
		m.steps += int64(len(b.code)) + 1
		if m.steps > m.limit {
			if m.steps > pathLimit || time.Now().After(m.ex.deadline.Add(20*time.Second)) {
				m.abort("limit", "instruction or time limit")
			}
			m.limit = m.steps + 2_000_000
		}
		for _, f := range b.code {
			f(fr)
		}
		switch b.term {
		case tJump:
			b = m.jump(fr, b, 0)
		case tIf:
			c := fr.get(b.cond)
			if c.p == nil {
				b = m.jump(fr, b, int(c.n^1))
			} else {
				b = m.symIf(fr, b, c.p.(*Term))
			}
		case tRet:
			switch len(b.rets) {
			case 0:
				return V{}
			case 1:
				return fr.get(b.rets[0])
			}
			t := &Tuple{make([]V, len(b.rets))}
			for i, r := range b.rets {
				t.v[i] = fr.get(r)
			}
			return V{p: t}
		case tPanic:
			panic(targetPanic{fr.get(b.cond)})
		}
	}
}

func (m *M) jump(fr *Frame, b *Block, i int) *Block {
	s := b.succs[i]
	if len(s.phis) > 0 {
		m.phis(fr, s, b.slot[i])
	}
	return s
}

func (m *M) phis(fr *Frame, s *Block, slot int) {
	if len(s.phis) == 1 {
		ph := &s.phis[0]
		fr.regs[ph.dst] = fr.get(ph.edges[slot])
		return
	}
	var buf [8]V
	tmp := buf[:0]
	for i := range s.phis {
		tmp = append(tmp, fr.get(s.phis[i].edges[slot]))
	}
	for i := range s.phis {
		fr.regs[s.phis[i].dst] = tmp[i]
	}
}

// --- symbolic branches: region if-conversion -----------------------------

type redge struct {
	slot int
	cond *Term
	vals []V // phi values, read when the edge is created
}

type rblock struct {
	b     *Block
	edges []redge
}

type rheap []*rblock

func (h rheap) Len() int           { return len(h) }
func (h rheap) Less(i, j int) bool { return h[i].b.rpo < h[j].b.rpo }
func (h rheap) Swap(i, j int)      { h[i], h[j] = h[j], h[i] }
func (h *rheap) Push(x any)        { *h = append(*h, x.(*rblock)) }
func (h *rheap) Pop() any {
	o := *h
	x := o[len(o)-1]
	*h = o[:len(o)-1]
	return x
}

const maxRegion = 400

func (m *M) symIf(fr *Frame, b *Block, cond *Term) *Block {
	tc := m.tc
	switch m.quick(cond) {
	case 1:
		return m.jump(fr, b, 0)
	case -1:
		return m.jump(fr, b, 1)
	}
	var h rheap
	pend := map[*Block]*rblock{}
	exits := map[*Block]*rblock{}
	var exitOrder []*rblock
	addEdge := func(from *Block, i int, c *Term) {
		if m.quick(c) == -1 {
			return
		}
		s := from.succs[i]
		var e = redge{slot: from.slot[i], cond: c}
		for k := range s.phis {
			e.vals = append(e.vals, fr.get(s.phis[k].edges[e.slot]))
		}
		isExit := !s.pure || s.rpo <= from.rpo
		if x, ok := exits[s]; ok {
			x.edges = append(x.edges, e)
			return
		}
		if isExit {
			x := &rblock{b: s, edges: []redge{e}}
			exits[s] = x
			exitOrder = append(exitOrder, x)
			if p, ok := pend[s]; ok && p != nil {
				// was queued as an inner block: make it an exit
				x.edges = append(p.edges, e)
				for i, y := range h {
					if y == p {
						heap.Remove(&h, i)
						break
					}
				}
				delete(pend, s)
			}
			return
		}
		if p, ok := pend[s]; ok && p != nil {
			p.edges = append(p.edges, e)
			return
		}
		p := &rblock{b: s, edges: []redge{e}}
		pend[s] = p
		heap.Push(&h, p)
	}
	addEdge(b, 0, cond)
	addEdge(b, 1, tc.Not(cond))
	n := 0
	for h.Len() > 0 {
		r := heap.Pop(&h).(*rblock)
		delete(pend, r.b)
		n++
		makeExit := func() {
			exits[r.b] = r
			exitOrder = append(exitOrder, r)
		}
		if n > maxRegion {
			makeExit()
			continue
		}
		vals, bc, ok := m.mergeEdges(r)
		if !ok || !m.runPure(fr, r.b, vals) {
			makeExit()
			continue
		}
		if r.b.term == tJump {
			addEdge(r.b, 0, bc)
			continue
		}
		c := fr.get(r.b.cond)
		if c.p == nil {
			addEdge(r.b, int(c.n^1), bc)
			continue
		}
		t := c.p.(*Term)
		addEdge(r.b, 0, tc.And(bc, t))
		addEdge(r.b, 1, tc.And(bc, tc.Not(t)))
	}
	// group the exits
	type group struct {
		b    *Block
		vals []V
		cond *Term
	}
	var gs []group
	for _, x := range exitOrder {
		vals, bc, ok := m.mergeEdges(x)
		if ok {
			gs = append(gs, group{x.b, vals, bc})
			continue
		}
		for _, e := range x.edges {
			gs = append(gs, group{x.b, e.vals, e.cond})
		}
	}
	k := 0
	if len(gs) > 1 {
		conds := make([]*Term, len(gs))
		for i := range gs {
			conds[i] = gs[i].cond
		}
		k = m.decide(conds, fr)
	} else if len(gs) == 0 {
		m.abort("infeasible", "no exit")
	}
	g := gs[k]
	for i := range g.b.phis {
		fr.regs[g.b.phis[i].dst] = g.vals[i]
	}
	return g.b
}

// mergeEdges computes the phi values and the path condition of a block.
func (m *M) mergeEdges(r *rblock) (vals []V, bc *Term, ok bool) {
	tc := m.tc
	bc = tc.tFalse
	for _, e := range r.edges {
		bc = tc.Or(bc, e.cond)
	}
	if len(r.edges) == 1 {
		return r.edges[0].vals, bc, true
	}
	n := len(r.b.phis)
	vals = make([]V, n)
	for i := 0; i < n; i++ {
		v := r.edges[len(r.edges)-1].vals[i]
		for j := len(r.edges) - 2; j >= 0; j-- {
			v, ok = m.iteV(r.edges[j].cond, r.edges[j].vals[i], v, r.b.phis[i].ti)
			if !ok {
				return nil, bc, false
			}
		}
		vals[i] = v
	}
	return vals, bc, true
}

func (m *M) iteV(c *Term, a, b V, ti *TypeInfo) (V, bool) {
	if a == b {
		return a, true
	}
	switch ti.kind {
	case kBool, kInt:
		return tv(m.tc.Ite(c, m.term(a, ti.w), m.term(b, ti.w))), true
	case kString:
		n := strLen(a)
		if n != strLen(b) {
			return V{}, false
		}
		ca, cb := strCells(a), strCells(b)
		out := make([]V, n)
		for i := range out {
			if ca[i] == cb[i] {
				out[i] = ca[i]
			} else {
				out[i] = tv(m.tc.Ite(c, m.term(ca[i], 8), m.term(cb[i], 8)))
			}
		}
		return mkStr(out), true
	}
	return V{}, false
}

// runPure speculatively executes a pure block.
func (m *M) runPure(fr *Frame, b *Block, vals []V) (ok bool) {
	if m.spec {
		return false
	}
	m.spec = true
	depth, sp := m.depth, m.sp
	defer func() {
		m.spec = false
		if x := recover(); x != nil {
			if _, is := x.(specAbort); is {
				m.depth, m.sp = depth, sp
				ok = false
				return
			}
			panic(x)
		}
	}()
	for i := range b.phis {
		fr.regs[b.phis[i].dst] = vals[i]
	}
	m.steps += int64(len(b.code)) + 1
	for _, f := range b.code {
		f(fr)
	}
	return true
}

// --- package initialisation ----------------------------------------------

func (m *M) initPackages() {
	for _, pk := range m.p.initOrd {
		m.initPkg(pk)
	}
}

func (m *M) initPkg(pk *ssa.Package) {
	path := pk.Pkg.Path()
	if skipInit(path) {
		return
	}
	f := pk.Func("init")
	if f == nil {
		return
	}
	func() {
		defer func() {
			if x := recover(); x != nil {
				if os.Getenv("VP_DEBUG") != "" {
					fmt.Fprintf(os.Stderr, "init %s: %v%s\n", path, x, m.where())
				}
				m.depth, m.sp = 0, 0
				m.ex.noteInit(path, fmt.Sprint(x))
			}
		}()
		m.callFn(m.p.fn(f))
	}()
}
