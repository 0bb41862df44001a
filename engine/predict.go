package main

import (
	"encoding/binary"
	"hash/maphash"
	"slices"
	"sync"
	"sync/atomic"
)

// Full-context LL prediction on a natively held ATN: exact sets of
// configurations (state, alternative, call stack), as the ANTLR runtime
// explores them, reduced only in ways that cannot change a prediction:
//
//   - of the configurations with one state and stack only the one with the
//     lowest alternative is kept: the others reach nothing it does not reach,
//     and a conflict is resolved to the lowest alternative;
//   - a call whose return state does nothing but return pushes no frame.
//
// The caches are shared by the workers.

type stk struct{ ret, parent int32 }

// conf packs state, stack and alternative, in this order.
type conf uint64

func mkConf(state, ctx int32, alt uint64) conf {
	return conf(uint64(state)<<40 | uint64(ctx)<<8 | alt)
}
func (c conf) state() int32 { return int32(c >> 40) }
func (c conf) ctx() int32   { return int32(uint32(c >> 8)) }
func (c conf) alt() int     { return int(c & 0xff) }

type cset struct {
	confs []conf
	next  []atomic.Pointer[outcome]
	syn   int // alternative that finished the decision's rule, or 0
	only  int // the alternative all configurations agree on, or 0
}

// relItem is a configuration of a closure, relative to the stack it starts on.
type relItem struct {
	state int32
	push  []int32 // outermost first
}

type relClosure struct {
	items []relItem
	stop  bool // the rule may end
}

const (
	nShards   = 64
	chunkBits = 12
)

type shard[K comparable, T any] struct {
	mu sync.RWMutex
	m  map[K]T
}

// chunked is an append-only array that is read without locking.
type chunked[T any] struct {
	mu     sync.Mutex
	n      int32
	chunks [1 << 15]atomic.Pointer[[1 << chunkBits]T]
}

func (c *chunked[T]) add(x T) int32 {
	c.mu.Lock()
	defer c.mu.Unlock()
	id := c.n
	p := &c.chunks[id>>chunkBits]
	if p.Load() == nil {
		p.Store(new([1 << chunkBits]T))
	}
	p.Load()[id&(1<<chunkBits-1)] = x
	c.n++
	return id
}

func (c *chunked[T]) get(id int32) T { return c.chunks[id>>chunkBits].Load()[id&(1<<chunkBits-1)] }

type predictor struct {
	stacks   chunked[stk]
	stackIdx [nShards]shard[stk, int32]
	sets     chunked[*cset]
	setIdx   [nShards]shard[string, int32]
	starts   shard[[2]int32, int32]
	clo      [nShards]shard[conf, []conf]
	rel      [2][]atomic.Pointer[relClosure]
	tail     []bool // the state only returns
	end      int32  // canonical state of a finished parse
	seed     maphash.Seed
}

func (n *natn) initPredictor() {
	p := &n.pred
	p.seed = maphash.MakeSeed()
	for i := range p.stackIdx {
		p.stackIdx[i].m = map[stk]int32{}
		p.setIdx[i].m = map[string]int32{}
		p.clo[i].m = map[conf][]conf{}
	}
	p.starts.m = map[[2]int32]int32{}
	p.rel[0] = make([]atomic.Pointer[relClosure], len(n.states))
	p.rel[1] = make([]atomic.Pointer[relClosure], len(n.states))
	p.stacks.add(stk{-1, -1})
	p.tail = make([]bool, len(n.states))
	for s := range n.states {
		if n.states[s].typ == 7 {
			p.tail[s] = true
			p.end = int32(s)
		}
	}
	for again := true; again; {
		again = false
		for s := range n.states {
			if p.tail[s] || len(n.states[s].trans) == 0 {
				continue
			}
			t := true
			for _, x := range n.states[s].trans {
				if x.rule || !x.eps || !p.tail[x.target] {
					t = false
				}
			}
			if t {
				p.tail[s], again = true, true
			}
		}
	}
}

func (n *natn) frame(ctx int32) stk { return n.pred.stacks.get(ctx) }

// stack is the stack with one more frame.
func (n *natn) stack(ret, parent int32) int32 {
	if n.pred.tail[ret] {
		return parent
	}
	k := stk{ret, parent}
	sh := &n.pred.stackIdx[uint32(ret*31+parent)%nShards]
	sh.mu.RLock()
	id, ok := sh.m[k]
	sh.mu.RUnlock()
	if ok {
		return id
	}
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if id, ok := sh.m[k]; ok {
		return id
	}
	id = n.pred.stacks.add(k)
	sh.m[k] = id
	return id
}

// relative is the closure of a state within its rule invocation.
func (n *natn) relative(s int32, eof bool) *relClosure {
	slot := &n.pred.rel[b2u(eof)][s]
	if r := slot.Load(); r != nil {
		return r
	}
	r := &relClosure{}
	seen := map[string]bool{}
	var walk func(s int32, push []int32)
	walk = func(s int32, push []int32) {
		buf := binary.LittleEndian.AppendUint32(nil, uint32(s))
		for _, x := range push {
			buf = binary.LittleEndian.AppendUint32(buf, uint32(x))
		}
		if seen[string(buf)] {
			return
		}
		seen[string(buf)] = true
		st := &n.states[s]
		if st.typ == 7 {
			if len(push) == 0 {
				r.stop = true
				return
			}
			walk(push[len(push)-1], push[:len(push)-1])
			return
		}
		keep := false
		for i := range st.trans {
			t := &st.trans[i]
			switch {
			case t.rule:
				p := push
				if !n.pred.tail[t.follow] {
					p = append(slices.Clone(push), t.follow)
				}
				walk(t.target, p)
			case t.eps:
				walk(t.target, push)
			default:
				keep = true
				if eof && t.eof {
					walk(t.target, push)
				}
			}
		}
		if keep {
			r.items = append(r.items, relItem{s, slices.Clone(push)})
		}
	}
	walk(s, nil)
	slot.CompareAndSwap(nil, r)
	return slot.Load()
}

// closure is the epsilon closure of a state on a stack; the alternatives of
// the result are 0.  (A recursion that consumes nothing does not occur in an
// ATN without left recursion.)
func (n *natn) closure(state, ctx int32, eof bool) []conf {
	k := mkConf(state, ctx, uint64(b2u(eof)))
	sh := &n.pred.clo[uint64(k*0x9e3779b97f4a7c15)>>58]
	sh.mu.RLock()
	r, ok := sh.m[k]
	sh.mu.RUnlock()
	if ok {
		return r
	}
	var out []conf
	seen := map[conf]bool{}
	for {
		// a finished rule returns to the frame below
		e := mkConf(state, ctx, 0)
		if seen[e] {
			break
		}
		seen[e] = true
		rel := n.relative(state, eof)
		for _, it := range rel.items {
			c := ctx
			for _, f := range it.push {
				c = n.stack(f, c)
			}
			out = append(out, mkConf(it.state, c, 0))
		}
		if !rel.stop {
			break
		}
		if ctx == 0 {
			out = append(out, mkConf(n.pred.end, 0, 0))
			break
		}
		f := n.frame(ctx)
		state, ctx = f.ret, f.parent
	}
	slices.Sort(out)
	out = slices.Clip(slices.Compact(out))
	sh.mu.Lock()
	sh.m[k] = out
	sh.mu.Unlock()
	return out
}

// reduce sorts and keeps the lowest alternative for each state and stack.
func reduce(cs []conf) []conf {
	slices.Sort(cs)
	return slices.CompactFunc(cs, func(a, b conf) bool { return a>>8 == b>>8 })
}

// intern gives the number of a reduced set.
func (n *natn) intern(cs []conf) int32 {
	buf := make([]byte, 0, len(cs)*8)
	for _, c := range cs {
		buf = binary.LittleEndian.AppendUint64(buf, uint64(c))
	}
	sh := &n.pred.setIdx[maphash.Bytes(n.pred.seed, buf)%nShards]
	sh.mu.RLock()
	id, ok := sh.m[string(buf)]
	sh.mu.RUnlock()
	if ok {
		return id
	}
	sh.mu.Lock()
	defer sh.mu.Unlock()
	if id, ok := sh.m[string(buf)]; ok {
		return id
	}
	s := &cset{confs: slices.Clip(cs), next: make([]atomic.Pointer[outcome], len(n.clsRep))}
	for i, c := range cs {
		if n.states[c.state()].typ == 7 && (s.syn == 0 || c.alt() < s.syn) {
			s.syn = c.alt()
		}
		if i == 0 {
			s.only = c.alt()
		} else if s.only != c.alt() {
			s.only = 0
		}
	}
	id = n.pred.sets.add(s)
	sh.m[string(buf)] = id
	return id
}

func (n *natn) start(decision int, ctx int32) int32 {
	k := [2]int32{int32(decision), ctx}
	sh := &n.pred.starts
	sh.mu.RLock()
	id, ok := sh.m[k]
	sh.mu.RUnlock()
	if ok {
		return id
	}
	var out []conf
	for i, t := range n.states[n.decisions[decision]].trans {
		x := ctx
		if t.rule {
			x = n.stack(t.follow, ctx)
		}
		for _, c := range n.closure(t.target, x, false) {
			out = append(out, c|conf(i+1))
		}
	}
	id = n.intern(reduce(out))
	sh.mu.Lock()
	sh.m[k] = id
	sh.mu.Unlock()
	return id
}

// syn is the alternative that finished the decision's rule in a set, or 0.
func (n *natn) syn(set int32) int { return n.pred.sets.get(set).syn }

func (n *natn) step(set int32, tok int) outcome {
	if tok < -1 || tok > n.maxTok {
		return outcome{0, -1}
	}
	c := n.cls[tok+1]
	tok = n.clsRep[c]
	s := n.pred.sets.get(set)
	if o := s.next[c].Load(); o != nil {
		return *o
	}
	o := n.compute(s, tok)
	s.next[c].Store(&o)
	return o
}

func (n *natn) compute(s *cset, tok int) outcome {
	var out, skipped []conf
	for _, c := range s.confs {
		st := &n.states[c.state()]
		if st.typ == 7 {
			skipped = append(skipped, c)
			continue
		}
		for i := range st.trans {
			t := &st.trans[i]
			if t.set != nil && t.set.has(tok) {
				for _, x := range n.closure(t.target, c.ctx(), tok == -1) {
					out = append(out, x|conf(c.alt()))
				}
			}
		}
	}
	stop := false
	for _, c := range out {
		if n.states[c.state()].typ == 7 {
			stop = true
		}
	}
	if tok == -1 {
		out = slices.DeleteFunc(out, func(c conf) bool { return n.states[c.state()].typ != 7 })
	}
	if !stop {
		out = append(out, skipped...)
	}
	if len(out) == 0 {
		return outcome{0, -1}
	}
	id := n.intern(reduce(out))
	if a := n.pred.sets.get(id).only; a > 0 {
		return outcome{a, -1}
	}
	return outcome{0, id}
}
