package main

// Symbolic terms: hash-consed bit-vector / boolean expressions, their
// normalisation, and the domain ("truth set") analysis for terms over one
// input variable.

import (
	"math"
	"math/bits"
	"sort"
)

type Op uint8

const (
	OpConst Op = iota
	OpVar
	OpLin // sum of coef*term + k (mod 2^w)
	OpMul
	OpUDiv
	OpSDiv
	OpURem
	OpSRem
	OpAnd
	OpOr
	OpXor
	OpShl
	OpLShr
	OpAShr
	OpZExt
	OpSExt
	OpTrunc
	OpIte
	OpPW // piecewise constant function of one variable
	// boolean (w==0)
	OpIn // variable in interval set
	OpEq
	OpUlt
	OpSlt
	OpBNot
	OpBAnd
	OpBOr
)

type Iv struct{ lo, hi uint64 }

type Piece struct{ lo, hi, val uint64 }

type Lit struct {
	c uint64
	t *Term
}

type Term struct {
	op    Op
	w     uint8
	multi bool // more than one variable
	tsOK  int8 // 0 unknown, 1 computed, -1 not computable
	id    int32
	v     *Var // the single variable, if exactly one
	a, b  *Term
	c     *Term
	k     uint64
	lin   []Lit
	pcs   []Piece
	ivs   []Iv
	ts    []Iv
	tt    []uint64 // value table over v.init for small domains
	size  int32

	rdom     *Iv
	rlen     int
	rlo, rhi int64
}

// Var is one symbolic input.
type Var struct {
	name string
	w    uint8
	id   int
	init []Iv // initial domain (unsigned)
	n    uint64
	tab  bool // small enough to tabulate
	term *Term
}

func ivCount(ivs []Iv) uint64 {
	var n uint64
	for _, iv := range ivs {
		n += iv.hi - iv.lo + 1
	}
	return n
}

func ivIntersect(a, b []Iv) []Iv {
	var out []Iv
	i, j := 0, 0
	for i < len(a) && j < len(b) {
		lo, hi := a[i].lo, a[i].hi
		if b[j].lo > lo {
			lo = b[j].lo
		}
		if b[j].hi < hi {
			hi = b[j].hi
		}
		if lo <= hi {
			out = append(out, Iv{lo, hi})
		}
		if a[i].hi < b[j].hi {
			i++
		} else {
			j++
		}
	}
	return out
}

func ivMinus(a, b []Iv) []Iv {
	var out []Iv
	for _, x := range a {
		lo := x.lo
		done := false
		for _, y := range b {
			if y.hi < lo {
				continue
			}
			if y.lo > x.hi {
				break
			}
			if y.lo > lo {
				out = append(out, Iv{lo, y.lo - 1})
			}
			if y.hi >= x.hi {
				done = true
				break
			}
			lo = y.hi + 1
		}
		if !done && lo <= x.hi {
			out = append(out, Iv{lo, x.hi})
		}
	}
	return out
}

func ivEqual(a, b []Iv) bool {
	if len(a) != len(b) {
		return false
	}
	for i := range a {
		if a[i] != b[i] {
			return false
		}
	}
	return true
}

func ivNorm(a []Iv) []Iv {
	if len(a) == 0 {
		return nil
	}
	sort.Slice(a, func(i, j int) bool { return a[i].lo < a[j].lo })
	out := a[:1:1]
	for _, x := range a[1:] {
		l := &out[len(out)-1]
		if x.lo <= l.hi || x.lo == l.hi+1 {
			if x.hi > l.hi {
				l.hi = x.hi
			}
		} else {
			out = append(out, x)
		}
	}
	return out
}

func ivHas(a []Iv, x uint64) bool {
	for _, iv := range a {
		if x >= iv.lo && x <= iv.hi {
			return true
		}
	}
	return false
}

func ivUnion(a, b []Iv) []Iv {
	c := make([]Iv, 0, len(a)+len(b))
	c = append(c, a...)
	c = append(c, b...)
	return ivNorm(c)
}

func mask(w uint8) uint64 {
	if w >= 64 {
		return math.MaxUint64
	}
	return 1<<w - 1
}

func sext(x uint64, w uint8) int64 {
	if w == 0 || w >= 64 {
		return int64(x)
	}
	s := 64 - w
	return int64(x<<s) >> s
}

// TermCtx owns the hash-consing tables of one path.
type TermCtx struct {
	tab           map[termKey][]*Term
	next          int32
	vars          []*Var
	dom           [][]Iv // current domain per variable
	cons          []*Term
	inCon         []bool // variable occurs in a multi-variable constraint
	tTrue, tFalse *Term
}

type termKey struct {
	op      Op
	w       uint8
	a, b, c int32
	k       uint64
}

func NewTermCtx() *TermCtx {
	c := &TermCtx{}
	c.reset()
	return c
}

func (c *TermCtx) reset() {
	c.tab = make(map[termKey][]*Term, 256)
	c.next = 1
	c.vars = c.vars[:0]
	c.dom = c.dom[:0]
	c.cons = c.cons[:0]
	c.inCon = c.inCon[:0]
	c.tTrue = c.Const(1, 0)
	c.tFalse = c.Const(0, 0)
}

func tid(t *Term) int32 {
	if t == nil {
		return 0
	}
	return t.id
}

func (c *TermCtx) mk(t Term) *Term {
	key := termKey{t.op, t.w, tid(t.a), tid(t.b), tid(t.c), t.k}
	if t.op == OpLin {
		for _, l := range t.lin {
			key.k = key.k*1000003 ^ l.c ^ uint64(l.t.id)<<32
		}
	}
	if t.op == OpPW || t.op == OpIn {
		key.a = int32(t.v.id) + 1
		for _, p := range t.pcs {
			key.k = key.k*1000003 ^ p.lo ^ p.hi<<20 ^ p.val<<40
		}
		for _, p := range t.ivs {
			key.k = key.k*1000003 ^ p.lo ^ p.hi<<21
		}
	}
outer:
	for _, u := range c.tab[key] {
		if u.op != t.op || u.w != t.w || u.a != t.a || u.b != t.b || u.c != t.c || u.k != t.k {
			continue
		}
		if len(u.lin) != len(t.lin) || len(u.pcs) != len(t.pcs) || len(u.ivs) != len(t.ivs) {
			continue
		}
		for i := range u.lin {
			if u.lin[i] != t.lin[i] {
				continue outer
			}
		}
		for i := range u.pcs {
			if u.pcs[i] != t.pcs[i] {
				continue outer
			}
		}
		for i := range u.ivs {
			if u.ivs[i] != t.ivs[i] {
				continue outer
			}
		}
		if (t.op == OpPW || t.op == OpIn || t.op == OpVar) && u.v != t.v {
			continue
		}
		return u
	}
	n := new(Term)
	*n = t
	n.id = c.next
	c.next++
	n.size = 1
	add := func(x *Term) {
		if x == nil {
			return
		}
		n.size += x.size
		if x.multi {
			n.multi = true
		}
		if x.v != nil {
			if n.v == nil && !n.multi {
				n.v = x.v
			} else if n.v != x.v {
				n.multi = true
			}
		}
	}
	if t.op != OpPW && t.op != OpIn && t.op != OpVar {
		n.v = nil
	}
	add(t.a)
	add(t.b)
	add(t.c)
	for _, l := range t.lin {
		add(l.t)
	}
	if n.multi {
		n.v = nil
	}
	c.tab[key] = append(c.tab[key], n)
	return n
}

func (c *TermCtx) Const(k uint64, w uint8) *Term {
	if w != 0 {
		k &= mask(w)
	}
	return c.mk(Term{op: OpConst, w: w, k: k})
}

func (c *TermCtx) Bool(b bool) *Term {
	if b {
		return c.tTrue
	}
	return c.tFalse
}

func (c *TermCtx) NewVar(name string, w uint8, init []Iv) *Var {
	for _, v := range c.vars {
		if v.name == name {
			return v
		}
	}
	v := &Var{name: name, w: w, id: len(c.vars), init: init, n: ivCount(init)}
	v.tab = v.n <= 256
	c.vars = append(c.vars, v)
	c.dom = append(c.dom, init)
	c.inCon = append(c.inCon, false)
	v.term = c.mk(Term{op: OpVar, w: w, v: v, k: uint64(v.id)})
	return v
}

func isC(t *Term) bool { return t.op == OpConst }

// --- ranges -----------------------------------------------------------

// tabRange is the exact signed range of a term over one tabulated variable.
func (c *TermCtx) tabRange(t *Term) (int64, int64, bool) {
	d := c.dom[t.v.id]
	if len(d) == 0 {
		return 0, 0, false
	}
	if t.rdom == &d[0] && t.rlen == len(d) {
		return t.rlo, t.rhi, true
	}
	tab := c.table(t)
	first := true
	var lo, hi int64
	i, k := 0, 0
	for _, iv := range t.v.init {
		for x := iv.lo; ; x++ {
			for k < len(d) && d[k].hi < x {
				k++
			}
			if k < len(d) && x >= d[k].lo {
				y := sext(tab[i], t.w)
				if first || y < lo {
					lo = y
				}
				if first || y > hi {
					hi = y
				}
				first = false
			}
			i++
			if x == iv.hi {
				break
			}
		}
	}
	if first {
		return 0, 0, false
	}
	t.rdom, t.rlen, t.rlo, t.rhi = &d[0], len(d), lo, hi
	return lo, hi, true
}

// srange gives a signed range of t's value (as a w-bit signed number), using
// current domains.
func (c *TermCtx) srange(t *Term) (int64, int64, bool) {
	if t.v != nil && !t.multi && t.v.tab && t.op != OpVar && t.w > 0 {
		return c.tabRange(t)
	}
	switch t.op {
	case OpConst:
		x := sext(t.k, t.w)
		return x, x, true
	case OpVar:
		d := c.dom[t.v.id]
		if len(d) == 0 {
			return 0, 0, false
		}
		lo, hi := d[0].lo, d[len(d)-1].hi
		if hi > mask(t.w)>>1 {
			return 0, 0, false
		}
		return int64(lo), int64(hi), true
	case OpPW:
		d := c.dom[t.v.id]
		first := true
		var lo, hi int64
		for _, p := range t.pcs {
			if len(ivIntersect([]Iv{{p.lo, p.hi}}, d)) == 0 {
				continue
			}
			x := sext(p.val, t.w)
			if first || x < lo {
				lo = x
			}
			if first || x > hi {
				hi = x
			}
			first = false
		}
		return lo, hi, !first
	case OpIte:
		l1, h1, ok1 := c.srange(t.b)
		l2, h2, ok2 := c.srange(t.c)
		if !ok1 || !ok2 {
			return 0, 0, false
		}
		return min(l1, l2), max(h1, h2), true
	case OpZExt:
		lo, hi, ok := c.urange(t.a)
		if !ok || hi > math.MaxInt64 {
			return 0, 0, false
		}
		return int64(lo), int64(hi), true
	case OpSExt:
		return c.srange(t.a)
	case OpLin:
		return c.srangeLin(t)
	case OpSDiv, OpUDiv:
		if isC(t.b) && sext(t.b.k, t.w) > 0 {
			lo, hi, ok := c.srange(t.a)
			if ok && lo >= 0 {
				d := sext(t.b.k, t.w)
				return lo / d, hi / d, true
			}
		}
	case OpSRem, OpURem:
		if isC(t.b) && sext(t.b.k, t.w) > 0 {
			lo, hi, ok := c.srange(t.a)
			if ok && lo >= 0 {
				return 0, min(hi, sext(t.b.k, t.w)-1), true
			}
		}
	case OpAnd:
		for _, x := range []*Term{t.a, t.b} {
			if isC(x) && sext(x.k, t.w) >= 0 {
				return 0, int64(x.k), true
			}
		}
	case OpLShr:
		if isC(t.b) && t.b.k > 0 && t.b.k < 64 {
			lo, hi, ok := c.srange(t.a)
			if ok && lo >= 0 {
				return lo >> t.b.k, hi >> t.b.k, true
			}
			if t.b.k < uint64(t.w) {
				return 0, int64(mask(t.w) >> t.b.k), true
			}
		}
	case OpAShr:
		if isC(t.b) && t.b.k < 64 {
			lo, hi, ok := c.srange(t.a)
			if ok {
				return lo >> t.b.k, hi >> t.b.k, true
			}
		}
	case OpTrunc:
		lo, hi, ok := c.srange(t.a)
		if ok && lo >= -(int64(1)<<(t.w-1)) && hi < int64(1)<<(t.w-1) {
			return lo, hi, true
		}
	case OpOr:
		l1, h1, ok1 := c.srange(t.a)
		l2, h2, ok2 := c.srange(t.b)
		if ok1 && ok2 && l1 >= 0 && l2 >= 0 {
			n := bits.Len64(uint64(h1) | uint64(h2))
			return max(l1, l2), int64(uint64(1)<<n - 1), true
		}
	}
	return 0, 0, false
}

// srangeLin is the range of a linear form none of whose partial sums wraps.
func (c *TermCtx) srangeLin(t *Term) (int64, int64, bool) {
	lo := sext(t.k, t.w)
	hi := lo
	for _, l := range t.lin {
		l1, h1, ok := c.srange(l.t)
		if !ok {
			return 0, 0, false
		}
		co := sext(l.c, t.w)
		p1, o1 := mulOv(co, l1)
		p2, o2 := mulOv(co, h1)
		if o1 || o2 {
			return 0, 0, false
		}
		if p1 > p2 {
			p1, p2 = p2, p1
		}
		var o bool
		lo, o = addOv(lo, p1)
		if o {
			return 0, 0, false
		}
		hi, o = addOv(hi, p2)
		if o {
			return 0, 0, false
		}
	}
	if t.w < 64 {
		if lo < -(int64(1)<<(t.w-1)) || hi >= int64(1)<<(t.w-1) {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

// urangeLin is the unsigned range of a linear form narrower than 64 bits that
// does not wrap.
func (c *TermCtx) urangeLin(t *Term) (uint64, uint64, bool) {
	lo := sext(t.k, t.w)
	hi := lo
	for _, l := range t.lin {
		ul, uh, ok := c.urange(l.t)
		if !ok || uh > math.MaxInt64>>8 {
			return 0, 0, false
		}
		co := sext(l.c, t.w)
		p1, o1 := mulOv(co, int64(ul))
		p2, o2 := mulOv(co, int64(uh))
		if o1 || o2 {
			return 0, 0, false
		}
		if p1 > p2 {
			p1, p2 = p2, p1
		}
		lo += p1
		hi += p2
	}
	if lo >= 0 && hi >= 0 && uint64(hi) <= mask(t.w) {
		return uint64(lo), uint64(hi), true
	}
	return 0, 0, false
}

func (c *TermCtx) urange(t *Term) (uint64, uint64, bool) {
	if t.v != nil && !t.multi && t.v.tab && t.op != OpVar && t.w > 0 {
		if lo, hi, ok := c.tabRange(t); ok && lo >= 0 {
			return uint64(lo), uint64(hi), true
		}
	}
	switch t.op {
	case OpConst:
		return t.k, t.k, true
	case OpVar:
		d := c.dom[t.v.id]
		if len(d) == 0 {
			return 0, 0, false
		}
		return d[0].lo, d[len(d)-1].hi, true
	case OpZExt:
		return c.urange(t.a)
	case OpIte:
		l1, h1, ok1 := c.urange(t.b)
		l2, h2, ok2 := c.urange(t.c)
		if ok1 && ok2 {
			return min(l1, l2), max(h1, h2), true
		}
	case OpPW:
		d := c.dom[t.v.id]
		first := true
		var lo, hi uint64
		for _, p := range t.pcs {
			if len(ivIntersect([]Iv{{p.lo, p.hi}}, d)) == 0 {
				continue
			}
			if first || p.val < lo {
				lo = p.val
			}
			if first || p.val > hi {
				hi = p.val
			}
			first = false
		}
		return lo, hi, !first
	case OpOr:
		_, h1, ok1 := c.urange(t.a)
		_, h2, ok2 := c.urange(t.b)
		if ok1 && ok2 {
			n := bits.Len64(h1 | h2)
			if n == 64 {
				return 0, math.MaxUint64, true
			}
			return 0, uint64(1)<<n - 1, true
		}
	case OpAnd:
		for _, x := range []*Term{t.a, t.b} {
			if isC(x) {
				return 0, x.k, true
			}
		}
	case OpUDiv:
		if isC(t.b) && t.b.k > 0 {
			lo, hi, ok := c.urange(t.a)
			if ok {
				return lo / t.b.k, hi / t.b.k, true
			}
		}
	case OpURem:
		if isC(t.b) && t.b.k > 0 {
			return 0, t.b.k - 1, true
		}
	case OpLShr:
		if isC(t.b) && t.b.k < 64 {
			lo, hi, ok := c.urange(t.a)
			if ok {
				return lo >> t.b.k, hi >> t.b.k, true
			}
		}
	case OpLin:
		// exact value, when it does not wrap as unsigned
		if t.w == 64 {
			if lo, hi, ok := c.srange(t); ok && lo >= 0 {
				return uint64(lo), uint64(hi), true
			}
			return c.ulinrange(t)
		}
		return c.urangeLin(t)
	}
	if lo, hi, ok := c.srange(t); ok && lo >= 0 {
		return uint64(lo), uint64(hi), true
	}
	return 0, 0, false
}

// ulinrange: 64-bit unsigned linear form with nonnegative parts.
func (c *TermCtx) ulinrange(t *Term) (uint64, uint64, bool) {
	lo, hi := t.k, t.k
	for _, l := range t.lin {
		ul, uh, ok := c.urange(l.t)
		if !ok || sext(l.c, 64) < 0 {
			return 0, 0, false
		}
		h1, p1 := bits.Mul64(ul, l.c)
		h2, p2 := bits.Mul64(uh, l.c)
		if h1 != 0 || h2 != 0 {
			return 0, 0, false
		}
		var cr uint64
		lo, cr = bits.Add64(lo, p1, 0)
		if cr != 0 {
			return 0, 0, false
		}
		hi, cr = bits.Add64(hi, p2, 0)
		if cr != 0 {
			return 0, 0, false
		}
	}
	return lo, hi, true
}

func mulOv(a, b int64) (int64, bool) {
	if a == 0 || b == 0 {
		return 0, false
	}
	p := a * b
	if p/b != a || (a == -1 && b == math.MinInt64) || (b == -1 && a == math.MinInt64) {
		return 0, true
	}
	return p, false
}
func addOv(a, b int64) (int64, bool) {
	s := a + b
	if (a > 0 && b > 0 && s < 0) || (a < 0 && b < 0 && s >= 0) {
		return 0, true
	}
	return s, false
}

// --- constructors -------------------------------------------------------

func (c *TermCtx) linParts(t *Term) ([]Lit, uint64) {
	switch t.op {
	case OpConst:
		return nil, t.k
	case OpLin:
		return t.lin, t.k
	}
	return []Lit{{1, t}}, 0
}

func (c *TermCtx) mkLin(items []Lit, k uint64, w uint8) *Term {
	m := mask(w)
	k &= m
	sort.Slice(items, func(i, j int) bool { return items[i].t.id < items[j].t.id })
	out := make([]Lit, 0, len(items))
	for _, it := range items {
		if len(out) > 0 && out[len(out)-1].t == it.t {
			out[len(out)-1].c = (out[len(out)-1].c + it.c) & m
		} else {
			out = append(out, Lit{it.c & m, it.t})
		}
	}
	n := 0
	for _, it := range out {
		if it.c != 0 {
			out[n] = it
			n++
		}
	}
	out = out[:n]
	if n > 1 {
		var more uint64
		if out, more = c.affine(out, w); more != 0 || len(out) != n {
			k = (k + more) & m
			n = len(out)
		}
	}
	if n == 0 {
		return c.Const(k, w)
	}
	if n == 1 && out[0].c == 1 && k == 0 {
		return out[0].t
	}
	return c.mk(Term{op: OpLin, w: w, lin: out, k: k})
}

// affine replaces the items over one tabulated variable by a multiple of the
// variable and a constant, where that is what they add up to.
func (c *TermCtx) affine(items []Lit, w uint8) ([]Lit, uint64) {
	m := mask(w)
	var more uint64
	changed := false
	for i := 0; i < len(items); i++ {
		v := items[i].t.v
		if v == nil || items[i].t.multi || !v.tab {
			continue
		}
		cnt := 1
		first := true
		for j := range items {
			if j != i && items[j].t.v == v && !items[j].t.multi {
				if j < i {
					first = false
				}
				cnt++
			}
		}
		if !first || cnt < 2 {
			continue
		}
		f := make([]uint64, v.n)
		for _, it := range items {
			if it.t.v == v && !it.t.multi {
				for x, y := range c.table(it.t) {
					f[x] += it.c * y
				}
			}
		}
		// the values of the variable
		vt := v.term
		vals := c.table(vt)
		if len(vals) < 2 {
			continue
		}
		dx := vals[1] - vals[0]
		dy := (f[1] - f[0]) & m
		a := sext(dy, w)
		if dx == 0 || a%int64(dx) != 0 {
			continue
		}
		a /= int64(dx)
		b := (f[0] - uint64(a)*vals[0]) & m
		ok := true
		for x := range f {
			if (uint64(a)*vals[x]+b)&m != f[x]&m {
				ok = false
				break
			}
		}
		if !ok {
			continue
		}
		var out []Lit
		for _, it := range items {
			if it.t.v != v || it.t.multi {
				out = append(out, it)
			}
		}
		if uint64(a)&m != 0 {
			t := vt
			if v.w < w {
				t = c.ZExt(vt, w)
			} else if v.w > w {
				t = c.Trunc(vt, w)
			}
			if t.op == OpLin || t.op == OpConst {
				continue
			}
			// already that form
			if cnt == 1 {
				continue
			}
			out = append(out, Lit{uint64(a) & m, t})
		}
		items = out
		more = (more + b) & m
		changed = true
		i = -1
	}
	if changed {
		sort.Slice(items, func(i, j int) bool { return items[i].t.id < items[j].t.id })
	}
	return items, more
}

func (c *TermCtx) Add(a, b *Term) *Term { return c.linComb(a, 1, b, 1) }
func (c *TermCtx) Sub(a, b *Term) *Term { return c.linComb(a, 1, b, math.MaxUint64) }
func (c *TermCtx) Neg(a *Term) *Term {
	return c.linComb(c.Const(0, a.w), 1, a, math.MaxUint64)
}

func (c *TermCtx) linComb(a *Term, ca uint64, b *Term, cb uint64) *Term {
	la, ka := c.linParts(a)
	lb, kb := c.linParts(b)
	items := make([]Lit, 0, len(la)+len(lb))
	for _, l := range la {
		items = append(items, Lit{l.c * ca, l.t})
	}
	for _, l := range lb {
		items = append(items, Lit{l.c * cb, l.t})
	}
	return c.mkLin(items, ka*ca+kb*cb, a.w)
}

func (c *TermCtx) Mul(a, b *Term) *Term {
	if isC(a) {
		a, b = b, a
	}
	if isC(b) {
		return c.linComb(a, b.k, c.Const(0, a.w), 1)
	}
	if a.op == OpIte && isC(a.b) && isC(a.c) {
		return c.Ite(a.a, c.Mul(a.b, b), c.Mul(a.c, b))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.mk(Term{op: OpMul, w: a.w, a: a, b: b})
}

// splitDiv: a = d*q + r with q,r linear forms, no overflow, 0<=r<d.
func (c *TermCtx) splitDiv(a *Term, d uint64) (q, r *Term, ok bool) {
	items, k := c.linParts(a)
	if len(items) == 0 {
		return nil, nil, false
	}
	var qi, ri []Lit
	for _, l := range items {
		co := sext(l.c, a.w)
		if co%int64(d) == 0 {
			qi = append(qi, Lit{uint64(co / int64(d)), l.t})
		} else {
			ri = append(ri, l)
		}
	}
	if len(qi) == 0 {
		return nil, nil, false
	}
	ks := sext(k, a.w)
	kq := ks / int64(d)
	kr := ks % int64(d)
	if kr < 0 {
		kr += int64(d)
		kq--
	}
	q = c.mkLin(qi, uint64(kq), a.w)
	r = c.mkLin(ri, uint64(kr), a.w)
	lo, hi, ok1 := c.srange(r)
	ql, qh, ok2 := c.srange(q)
	if !ok1 || !ok2 || lo < 0 || hi >= int64(d) || ql < 0 {
		return nil, nil, false
	}
	// a is d*q+r modulo 2^w; exactly that when it fits
	top, o := mulOv(int64(d), qh)
	if o || top > int64(mask(a.w)>>1)-hi {
		return nil, nil, false
	}
	return q, r, true
}

func (c *TermCtx) Div(a, b *Term, signed, rem bool) *Term {
	if isC(a) && isC(b) && b.k != 0 {
		return c.Const(foldDiv(a.k, b.k, a.w, signed, rem), a.w)
	}
	if isC(b) && b.k != 0 {
		if b.k == 1 {
			if rem {
				return c.Const(0, a.w)
			}
			return a
		}
		if sext(b.k, a.w) > 0 {
			lo, hi, ok := c.srange(a)
			if ok && lo >= 0 && hi < sext(b.k, a.w) {
				if rem {
					return a
				}
				return c.Const(0, a.w)
			}
			if ok && signed && hi <= 0 && lo < 0 && lo > -(1<<62) && (lo > -int64(mask(a.w)>>1) || a.w == 64) {
				// truncated division is odd in the dividend
				return c.Neg(c.Div(c.Neg(a), b, signed, rem))
			}
			if ok && lo >= 0 {
				if q, r, ok := c.splitDiv(a, b.k); ok {
					if rem {
						return r
					}
					return q
				}
			}
		}
		if a.op == OpIte && isC(a.b) && isC(a.c) {
			return c.Ite(a.a, c.Div(a.b, b, signed, rem), c.Div(a.c, b, signed, rem))
		}
		// nonneg signed division is unsigned division
		if signed && sext(b.k, a.w) > 0 {
			if lo, _, ok := c.srange(a); ok && lo >= 0 {
				signed = false
			}
		}
	}
	op := OpUDiv
	switch {
	case signed && rem:
		op = OpSRem
	case signed:
		op = OpSDiv
	case rem:
		op = OpURem
	}
	return c.mk(Term{op: op, w: a.w, a: a, b: b})
}

func foldDiv(a, b uint64, w uint8, signed, rem bool) uint64 {
	if signed {
		x, y := sext(a, w), sext(b, w)
		if y == -1 {
			if rem {
				return 0
			}
			return uint64(-x) & mask(w)
		}
		if rem {
			return uint64(x%y) & mask(w)
		}
		return uint64(x/y) & mask(w)
	}
	if rem {
		return a % b
	}
	return a / b
}

func (c *TermCtx) Bit(op Op, a, b *Term) *Term {
	if isC(a) && isC(b) {
		return c.Const(foldBit(op, a.k, b.k, a.w), a.w)
	}
	if isC(a) && (op == OpAnd || op == OpOr || op == OpXor) {
		a, b = b, a
	}
	m := mask(a.w)
	if isC(b) {
		switch op {
		case OpAnd:
			if b.k == 0 {
				return b
			}
			if b.k == m {
				return a
			}
			// low mask that does not cut
			if b.k&(b.k+1) == 0 {
				if _, hi, ok := c.urange(a); ok && hi <= b.k {
					return a
				}
			}
		case OpOr, OpXor:
			if b.k == 0 {
				return a
			}
			if op == OpXor && b.k == m {
				return c.linComb(c.Const(m, a.w), 1, a, math.MaxUint64) // ^a = -1 - a
			}
		case OpShl:
			if b.k == 0 {
				return a
			}
			if b.k >= uint64(a.w) {
				return c.Const(0, a.w)
			}
			return c.Mul(a, c.Const(1<<b.k, a.w))
		case OpLShr, OpAShr:
			if b.k == 0 {
				return a
			}
		}
		if a.op == OpIte && isC(a.b) && isC(a.c) {
			return c.Ite(a.a, c.Bit(op, a.b, b), c.Bit(op, a.c, b))
		}
	}
	if a == b {
		switch op {
		case OpAnd, OpOr:
			return a
		case OpXor:
			return c.Const(0, a.w)
		}
	}
	return c.mk(Term{op: op, w: a.w, a: a, b: b})
}

func foldBit(op Op, a, b uint64, w uint8) uint64 {
	switch op {
	case OpAnd:
		return a & b
	case OpOr:
		return a | b
	case OpXor:
		return (a ^ b) & mask(w)
	case OpShl:
		if b >= uint64(w) {
			return 0
		}
		return a << b & mask(w)
	case OpLShr:
		if b >= uint64(w) {
			return 0
		}
		return a >> b
	case OpAShr:
		if b >= uint64(w) {
			b = uint64(w) - 1
		}
		return uint64(sext(a, w)>>b) & mask(w)
	}
	panic("foldBit")
}

func (c *TermCtx) mapPW(t *Term, w uint8, f func(uint64) uint64) *Term {
	out := make([]Piece, 0, len(t.pcs))
	for _, p := range t.pcs {
		v := f(p.val) & mask(w)
		if n := len(out); n > 0 && out[n-1].val == v && out[n-1].hi+1 == p.lo {
			out[n-1].hi = p.hi
		} else {
			out = append(out, Piece{p.lo, p.hi, v})
		}
	}
	return c.mkPW(t.v, out, w)
}

func (c *TermCtx) mkPW(v *Var, pcs []Piece, w uint8) *Term {
	if len(pcs) == 1 {
		return c.Const(pcs[0].val, w)
	}
	same := true
	for _, p := range pcs {
		if p.val != pcs[0].val {
			same = false
			break
		}
	}
	if same && len(pcs) > 0 {
		return c.Const(pcs[0].val, w)
	}
	return c.mk(Term{op: OpPW, w: w, v: v, pcs: pcs})
}

func (c *TermCtx) ZExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	switch a.op {
	case OpConst:
		return c.Const(a.k, w)
	case OpPW:
		return c.mapPW(a, w, func(x uint64) uint64 { return x })
	case OpZExt:
		return c.ZExt(a.a, w)
	case OpTrunc:
		if _, hi, ok := c.urange(a.a); ok && hi <= mask(a.w) {
			if a.a.w > w {
				return c.Trunc(a.a, w)
			}
			return c.ZExt(a.a, w)
		}
	case OpIte:
		if isC(a.b) || isC(a.c) {
			return c.Ite(a.a, c.ZExt(a.b, w), c.ZExt(a.c, w))
		}
	case OpLin:
		if a.w < 64 && c.plainU(a) {
			items := make([]Lit, 0, len(a.lin))
			for _, l := range a.lin {
				items = append(items, Lit{uint64(sext(l.c, a.w)), c.ZExt(l.t, w)})
			}
			return c.flatLin(items, uint64(sext(a.k, a.w)), w)
		}
	}
	return c.mk(Term{op: OpZExt, w: w, a: a})
}

// plainU tells whether the linear form, read as unsigned, never wraps.
func (c *TermCtx) plainU(t *Term) bool { _, _, ok := c.urangeLin(t); return ok }

// plainS tells the same for the signed reading.
func (c *TermCtx) plainS(t *Term) bool { _, _, ok := c.srangeLin(t); return ok }

// flatLin builds a linear form whose items may themselves be linear forms.
func (c *TermCtx) flatLin(items []Lit, k uint64, w uint8) *Term {
	r := c.Const(k, w)
	for _, l := range items {
		r = c.linComb(r, 1, l.t, l.c)
	}
	return r
}

func (c *TermCtx) SExt(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	switch a.op {
	case OpConst:
		return c.Const(uint64(sext(a.k, a.w)), w)
	case OpPW:
		return c.mapPW(a, w, func(x uint64) uint64 { return uint64(sext(x, a.w)) })
	case OpZExt:
		return c.ZExt(a.a, w)
	case OpSExt:
		return c.SExt(a.a, w)
	case OpIte:
		if isC(a.b) || isC(a.c) {
			return c.Ite(a.a, c.SExt(a.b, w), c.SExt(a.c, w))
		}
	case OpLin:
		if c.plainS(a) {
			items := make([]Lit, 0, len(a.lin))
			for _, l := range a.lin {
				items = append(items, Lit{uint64(sext(l.c, a.w)), c.SExt(l.t, w)})
			}
			return c.flatLin(items, uint64(sext(a.k, a.w)), w)
		}
	}
	if lo, _, ok := c.srange(a); ok && lo >= 0 {
		return c.mk(Term{op: OpZExt, w: w, a: a})
	}
	return c.mk(Term{op: OpSExt, w: w, a: a})
}

func (c *TermCtx) Trunc(a *Term, w uint8) *Term {
	if a.w == w {
		return a
	}
	switch a.op {
	case OpConst:
		return c.Const(a.k, w)
	case OpPW:
		return c.mapPW(a, w, func(x uint64) uint64 { return x })
	case OpZExt, OpSExt:
		if a.a.w >= w {
			return c.Trunc(a.a, w)
		}
		if a.op == OpZExt {
			return c.ZExt(a.a, w)
		}
		return c.SExt(a.a, w)
	case OpTrunc:
		return c.Trunc(a.a, w)
	case OpIte:
		return c.Ite(a.a, c.Trunc(a.b, w), c.Trunc(a.c, w))
	case OpLin:
		items := make([]Lit, 0, len(a.lin))
		for _, l := range a.lin {
			items = append(items, Lit{l.c, c.Trunc(l.t, w)})
		}
		return c.flatLin(items, a.k, w)
	}
	return c.mk(Term{op: OpTrunc, w: w, a: a})
}

func (c *TermCtx) Ite(cond, a, b *Term) *Term {
	if isC(cond) {
		if cond.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if cond.op == OpBNot {
		return c.Ite(cond.a, b, a)
	}
	if a.w == 0 {
		if isC(a) && isC(b) {
			if a.k != 0 {
				return cond
			}
			return c.Not(cond)
		}
		if isC(a) {
			if a.k != 0 {
				return c.Or(cond, b)
			}
			return c.And(c.Not(cond), b)
		}
		if isC(b) {
			if b.k != 0 {
				return c.Or(c.Not(cond), a)
			}
			return c.And(cond, a)
		}
		return c.normBool(c.mk(Term{op: OpIte, a: cond, b: a, c: b}))
	}
	// piecewise constant merge
	if cond.op == OpIn && (isC(a) || a.op == OpPW && a.v == cond.v) && (isC(b) || b.op == OpPW && b.v == cond.v) {
		tr := cond.ivs
		fa := ivMinus(cond.v.init, tr)
		pcs := append(c.piecesOn(a, tr), c.piecesOn(b, fa)...)
		sort.Slice(pcs, func(i, j int) bool { return pcs[i].lo < pcs[j].lo })
		var out []Piece
		for _, p := range pcs {
			if n := len(out); n > 0 && out[n-1].val == p.val && out[n-1].hi+1 == p.lo {
				out[n-1].hi = p.hi
			} else {
				out = append(out, p)
			}
		}
		return c.mkPW(cond.v, out, a.w)
	}
	return c.mk(Term{op: OpIte, w: a.w, a: cond, b: a, c: b})
}

func (c *TermCtx) piecesOn(t *Term, ivs []Iv) []Piece {
	var out []Piece
	if isC(t) {
		for _, iv := range ivs {
			out = append(out, Piece{iv.lo, iv.hi, t.k})
		}
		return out
	}
	for _, p := range t.pcs {
		for _, iv := range ivIntersect([]Iv{{p.lo, p.hi}}, ivs) {
			out = append(out, Piece{iv.lo, iv.hi, p.val})
		}
	}
	return out
}

func (c *TermCtx) In(v *Var, ivs []Iv) *Term {
	ivs = ivIntersect(ivs, v.init)
	if len(ivs) == 0 {
		return c.tFalse
	}
	if ivEqual(ivs, v.init) {
		return c.tTrue
	}
	return c.mk(Term{op: OpIn, v: v, ivs: ivs})
}

func (c *TermCtx) Not(a *Term) *Term {
	switch a.op {
	case OpConst:
		return c.Bool(a.k == 0)
	case OpBNot:
		return a.a
	case OpIn:
		return c.In(a.v, ivMinus(a.v.init, a.ivs))
	}
	return c.mk(Term{op: OpBNot, a: a})
}

func (c *TermCtx) And(a, b *Term) *Term {
	if isC(a) {
		if a.k != 0 {
			return b
		}
		return a
	}
	if isC(b) {
		if b.k != 0 {
			return a
		}
		return b
	}
	if a == b {
		return a
	}
	if a.op == OpIn && b.op == OpIn && a.v == b.v {
		return c.In(a.v, ivIntersect(a.ivs, b.ivs))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.normBool(c.mk(Term{op: OpBAnd, a: a, b: b}))
}

func (c *TermCtx) Or(a, b *Term) *Term {
	if isC(a) {
		if a.k != 0 {
			return a
		}
		return b
	}
	if isC(b) {
		if b.k != 0 {
			return b
		}
		return a
	}
	if a == b {
		return a
	}
	if a.op == OpIn && b.op == OpIn && a.v == b.v {
		return c.In(a.v, ivUnion(a.ivs, b.ivs))
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.normBool(c.mk(Term{op: OpBOr, a: a, b: b}))
}

func (c *TermCtx) Eq(a, b *Term) *Term {
	if a == b {
		return c.tTrue
	}
	if a.w == 0 {
		if isC(a) {
			a, b = b, a
		}
		if isC(b) {
			if b.k != 0 {
				return a
			}
			return c.Not(a)
		}
		return c.normBool(c.mk(Term{op: OpEq, a: a, b: b}))
	}
	if isC(a) && isC(b) {
		return c.Bool(a.k == b.k)
	}
	if isC(a) {
		a, b = b, a
	}
	if isC(b) {
		switch a.op {
		case OpVar:
			return c.In(a.v, []Iv{{b.k, b.k}})
		case OpZExt:
			if b.k > mask(a.a.w) {
				return c.tFalse
			}
			return c.Eq(a.a, c.Const(b.k, a.a.w))
		case OpPW:
			var ivs []Iv
			for _, p := range a.pcs {
				if p.val == b.k {
					ivs = append(ivs, Iv{p.lo, p.hi})
				}
			}
			return c.In(a.v, ivNorm(ivs))
		case OpLin:
			if len(a.lin) == 1 && a.lin[0].c == 1 {
				return c.Eq(a.lin[0].t, c.Const(b.k-a.k, a.w))
			}
		case OpIte:
			if isC(a.b) || isC(a.c) {
				return c.Or(c.And(a.a, c.Eq(a.b, b)), c.And(c.Not(a.a), c.Eq(a.c, b)))
			}
		}
		if lo, hi, ok := c.srange(a); ok {
			x := sext(b.k, a.w)
			if x < lo || x > hi {
				return c.tFalse
			}
			if lo == hi && lo == x {
				return c.tTrue
			}
		}
	} else {
		d := c.Sub(a, b)
		if isC(d) {
			return c.Bool(d.k == 0)
		}
		if l1, h1, ok := c.srange(a); ok {
			if l2, h2, ok := c.srange(b); ok && (h1 < l2 || h2 < l1) {
				return c.tFalse
			}
		}
		if d.op == OpLin {
			// cancel common parts (modular, always exact)
			var pos, neg []Lit
			for _, l := range d.lin {
				if sext(l.c, d.w) < 0 {
					neg = append(neg, Lit{-l.c, l.t})
				} else {
					pos = append(pos, l)
				}
			}
			if len(pos)+len(neg) < len(linItems(c, a))+len(linItems(c, b)) {
				a = c.mkLin(pos, d.k, d.w)
				b = c.mkLin(neg, 0, d.w)
			}
		}
	}
	if a.id > b.id {
		a, b = b, a
	}
	return c.normBool(c.mk(Term{op: OpEq, a: a, b: b}))
}

func linItems(c *TermCtx, t *Term) []Lit { l, _ := c.linParts(t); return l }

func (c *TermCtx) Ult(a, b *Term) *Term {
	if a == b {
		return c.tFalse
	}
	if isC(a) && isC(b) {
		return c.Bool(a.k < b.k)
	}
	if l1, h1, ok := c.urange(a); ok {
		if l2, h2, ok := c.urange(b); ok {
			if h1 < l2 {
				return c.tTrue
			}
			if l1 >= h2 {
				return c.tFalse
			}
		}
	}
	return c.normBool(c.mk(Term{op: OpUlt, a: a, b: b}))
}

func (c *TermCtx) Slt(a, b *Term) *Term {
	if a == b {
		return c.tFalse
	}
	if isC(a) && isC(b) {
		return c.Bool(sext(a.k, a.w) < sext(b.k, b.w))
	}
	if l1, h1, ok := c.srange(a); ok {
		if l2, h2, ok := c.srange(b); ok {
			if h1 < l2 {
				return c.tTrue
			}
			if l1 >= h2 {
				return c.tFalse
			}
		}
	}
	return c.normBool(c.mk(Term{op: OpSlt, a: a, b: b}))
}

// normBool rewrites a boolean over one variable into a domain set.
func (c *TermCtx) normBool(t *Term) *Term {
	if t.w != 0 || t.multi || t.v == nil || t.op == OpIn {
		return t
	}
	ts, ok := c.truthSet(t)
	if !ok {
		return t
	}
	return c.In(t.v, ts)
}

func (c *TermCtx) truthSet(t *Term) ([]Iv, bool) {
	if t.op == OpIn {
		return t.ivs, true
	}
	if t.tsOK == 1 {
		return t.ts, true
	}
	if t.tsOK == -1 {
		return nil, false
	}
	t.tsOK = -1
	v := t.v
	if v == nil || t.multi {
		return nil, false
	}
	if v.tab {
		tab := c.table(t)
		var ivs []Iv
		i := 0
		for _, iv := range v.init {
			for x := iv.lo; ; x++ {
				if tab[i] != 0 {
					if n := len(ivs); n > 0 && ivs[n-1].hi+1 == x {
						ivs[n-1].hi = x
					} else {
						ivs = append(ivs, Iv{x, x})
					}
				}
				i++
				if x == iv.hi {
					break
				}
			}
		}
		t.ts, t.tsOK = ivs, 1
		return ivs, true
	}
	pcs, ok := c.pieces(t)
	if !ok {
		return nil, false
	}
	var ivs []Iv
	for _, p := range pcs {
		if p.a != 0 {
			return nil, false
		}
		if p.b != 0 {
			ivs = append(ivs, Iv{p.lo, p.hi})
		}
	}
	t.ts, t.tsOK = ivNorm(ivs), 1
	return t.ts, true
}

// table: value of t for every value of its (small-domain) variable.
func (c *TermCtx) table(t *Term) []uint64 {
	if t.tt != nil {
		return t.tt
	}
	v := t.v
	n := int(v.n)
	out := make([]uint64, n)
	get := func(x *Term) []uint64 {
		if x.op == OpConst {
			r := make([]uint64, n)
			for i := range r {
				r[i] = x.k
			}
			return r
		}
		return c.table(x)
	}
	switch t.op {
	case OpVar, OpPW, OpIn:
		i, k := 0, 0
		for _, iv := range v.init {
			for x := iv.lo; ; x++ {
				switch t.op {
				case OpVar:
					out[i] = x
				case OpPW:
					for k < len(t.pcs) && t.pcs[k].hi < x {
						k++
					}
					if k < len(t.pcs) && x >= t.pcs[k].lo {
						out[i] = t.pcs[k].val
					}
				case OpIn:
					if ivHas(t.ivs, x) {
						out[i] = 1
					}
				}
				i++
				if x == iv.hi {
					break
				}
			}
		}
	case OpLin:
		for i := range out {
			out[i] = t.k
		}
		for _, l := range t.lin {
			s := get(l.t)
			for i := range out {
				out[i] += l.c * s[i]
			}
		}
		m := mask(t.w)
		for i := range out {
			out[i] &= m
		}
	case OpIte:
		cc, x, y := get(t.a), get(t.b), get(t.c)
		for i := range out {
			if cc[i] != 0 {
				out[i] = x[i]
			} else {
				out[i] = y[i]
			}
		}
	case OpBNot:
		x := get(t.a)
		for i := range out {
			out[i] = 1 - x[i]
		}
	case OpZExt, OpSExt, OpTrunc:
		x := get(t.a)
		for i := range out {
			out[i] = fold1(t, x[i])
		}
	default:
		x, y := get(t.a), get(t.b)
		for i := range out {
			out[i] = fold2(t, x[i], y[i])
		}
	}
	t.tt = out
	return out
}

func fold1(t *Term, x uint64) uint64 {
	switch t.op {
	case OpZExt:
		return x
	case OpSExt:
		return uint64(sext(x, t.a.w)) & mask(t.w)
	case OpTrunc:
		return x & mask(t.w)
	}
	panic("fold1")
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func fold2(t *Term, x, y uint64) uint64 {
	switch t.op {
	case OpMul:
		return x * y & mask(t.w)
	case OpUDiv, OpSDiv, OpURem, OpSRem:
		if y == 0 {
			// SMT-LIB semantics
			switch t.op {
			case OpUDiv:
				return mask(t.w)
			case OpSDiv:
				if sext(x, t.w) < 0 {
					return 1
				}
				return mask(t.w)
			}
			return x
		}
		return foldDiv(x, y, t.w, t.op == OpSDiv || t.op == OpSRem, t.op == OpURem || t.op == OpSRem)
	case OpAnd, OpOr, OpXor, OpShl, OpLShr, OpAShr:
		return foldBit(t.op, x, y, t.w)
	case OpEq:
		return b2u(x == y)
	case OpUlt:
		return b2u(x < y)
	case OpSlt:
		return b2u(sext(x, t.a.w) < sext(y, t.a.w))
	case OpBAnd:
		return x & y
	case OpBOr:
		return x | y
	}
	panic("fold2")
}

// pc: value = a*x+b (a is 0 or 1) modulo 2^w, for x in [lo,hi].
type pc struct {
	lo, hi uint64
	a      uint64
	b      uint64
}

const maxPieces = 4000

func (c *TermCtx) pieces(t *Term) ([]pc, bool) {
	if t.multi {
		return nil, false
	}
	w := t.w
	switch t.op {
	case OpVar:
		var out []pc
		for _, iv := range t.v.init {
			out = append(out, pc{iv.lo, iv.hi, 1, 0})
		}
		return out, true
	case OpPW:
		var out []pc
		for _, p := range t.pcs {
			out = append(out, pc{p.lo, p.hi, 0, p.val})
		}
		return out, true
	case OpIn:
		var out []pc
		for _, iv := range t.ivs {
			out = append(out, pc{iv.lo, iv.hi, 0, 1})
		}
		for _, iv := range ivMinus(t.v.init, t.ivs) {
			out = append(out, pc{iv.lo, iv.hi, 0, 0})
		}
		sort.Slice(out, func(i, j int) bool { return out[i].lo < out[j].lo })
		return out, true
	case OpLin:
		if len(t.lin) != 1 {
			return nil, false
		}
		ps, ok := c.pieces(t.lin[0].t)
		if !ok {
			return nil, false
		}
		out := make([]pc, len(ps))
		for i, p := range ps {
			if p.a == 0 {
				p.b = (p.b*t.lin[0].c + t.k) & mask(w)
			} else {
				if t.lin[0].c != 1 {
					return nil, false
				}
				p.b = (p.b + t.k) & mask(w)
			}
			out[i] = p
		}
		return out, true
	case OpZExt, OpSExt, OpTrunc:
		ps, ok := c.pieces(t.a)
		if !ok {
			return nil, false
		}
		var out []pc
		sw := t.a.w
		for _, p := range ps {
			if p.a == 0 {
				p.b = fold1(t, p.b)
				out = append(out, p)
				continue
			}
			if t.op == OpTrunc {
				p.b &= mask(w)
				out = append(out, p)
				continue
			}
			signed := t.op == OpSExt
			sp, ok := splitWrap(p, sw, signed)
			if !ok {
				return nil, false
			}
			for _, q := range sp {
				v := (q.lo + q.b) & mask(sw)
				if signed {
					v = uint64(sext(v, sw))
				}
				q.b = (v - q.lo) & mask(w)
				out = append(out, q)
			}
		}
		return out, true
	case OpBNot:
		ps, ok := c.pieces(t.a)
		if !ok {
			return nil, false
		}
		out := make([]pc, len(ps))
		for i, p := range ps {
			p.b = 1 - p.b
			out[i] = p
		}
		return out, true
	case OpIte:
		pcnd, ok := c.piecesOf(t.a, t.v)
		if !ok {
			return nil, false
		}
		pa, ok := c.piecesOf(t.b, t.v)
		if !ok {
			return nil, false
		}
		pb, ok := c.piecesOf(t.c, t.v)
		if !ok {
			return nil, false
		}
		var out []pc
		for _, p := range pcnd {
			src := pb
			if p.b != 0 {
				src = pa
			}
			for _, q := range src {
				lo, hi := max(p.lo, q.lo), min(p.hi, q.hi)
				if lo <= hi {
					out = append(out, pc{lo, hi, q.a, q.b})
				}
			}
		}
		return out, len(out) < maxPieces
	}
	if t.a == nil || t.b == nil {
		return nil, false
	}
	pa, ok := c.piecesOf(t.a, t.v)
	if !ok {
		return nil, false
	}
	pb, ok := c.piecesOf(t.b, t.v)
	if !ok {
		return nil, false
	}
	var out []pc
	i, j := 0, 0
	for i < len(pa) && j < len(pb) {
		p, q := pa[i], pb[j]
		lo, hi := max(p.lo, q.lo), min(p.hi, q.hi)
		if lo <= hi {
			if p.a == 0 && q.a == 0 {
				out = append(out, pc{lo, hi, 0, fold2(t, p.b, q.b)})
			} else if t.op == OpEq || t.op == OpUlt || t.op == OpSlt {
				r, ok := cmpPieces(t.op, t.a.w, pc{lo, hi, p.a, p.b}, pc{lo, hi, q.a, q.b})
				if !ok {
					return nil, false
				}
				out = append(out, r...)
			} else {
				return nil, false
			}
		}
		if len(out) > maxPieces {
			return nil, false
		}
		if p.hi < q.hi {
			i++
		} else {
			j++
		}
	}
	return out, true
}

func (c *TermCtx) piecesOf(t *Term, v *Var) ([]pc, bool) {
	if isC(t) {
		var out []pc
		for _, iv := range v.init {
			out = append(out, pc{iv.lo, iv.hi, 0, t.k})
		}
		return out, true
	}
	ps, ok := c.pieces(t)
	return ps, ok
}

// splitWrap splits an affine piece so that x+b does not wrap (unsigned), or
// does not change sign (signed), within each part.
func splitWrap(p pc, w uint8, signed bool) ([]pc, bool) {
	m := mask(w)
	if w < 64 && (p.hi-p.lo)>>w > 300 {
		return nil, false
	}
	out := []pc{p}
	cut := func(at uint64) { // a piece must not hold both value at-1 and value at
		for i := 0; i < len(out); i++ {
			q := out[i]
			// the first x above q.lo whose value is at
			d := (at - q.b - q.lo - 1) & m
			if d < q.hi-q.lo {
				x := q.lo + 1 + d
				out[i].hi = x - 1
				out = append(out, pc{})
				copy(out[i+2:], out[i+1:])
				out[i+1] = pc{x, q.hi, q.a, q.b}
			}
		}
	}
	cut(0)
	if signed {
		cut((m >> 1) + 1)
	}
	return out, true
}

func cmpPieces(op Op, w uint8, p, q pc) ([]pc, bool) {
	m := mask(w)
	if p.a == 1 && q.a == 1 {
		if op == OpEq {
			return []pc{{p.lo, p.hi, 0, b2u(p.b&m == q.b&m)}}, true
		}
		return nil, false
	}
	swap := false
	if p.a == 0 {
		p, q = q, p
		swap = true
	}
	// p affine, q constant
	k := q.b & m
	if op == OpEq {
		if w < 64 && (p.hi-p.lo)>>w > 0 {
			return nil, false // may hold more than once
		}
		d := (k - p.b - p.lo) & m
		if d > p.hi-p.lo {
			return []pc{{p.lo, p.hi, 0, 0}}, true
		}
		x := p.lo + d
		var out []pc
		if x > p.lo {
			out = append(out, pc{p.lo, x - 1, 0, 0})
		}
		out = append(out, pc{x, x, 0, 1})
		if x < p.hi {
			out = append(out, pc{x + 1, p.hi, 0, 0})
		}
		return out, true
	}
	signed := op == OpSlt
	var out []pc
	less := func(a, b uint64) bool {
		if signed {
			return sext(a, w) < sext(b, w)
		}
		return a < b
	}
	sp, ok := splitWrap(p, w, signed)
	if !ok {
		return nil, false
	}
	for _, s := range sp {
		vlo := (s.lo + s.b) & m
		// values ascend from vlo over the piece
		// find the x at which the comparison flips
		val := func(x uint64) bool {
			v := (x + s.b) & m
			if swap {
				return less(k, v)
			}
			return less(v, k)
		}
		_ = vlo
		a, b := val(s.lo), val(s.hi)
		if a == b {
			out = append(out, pc{s.lo, s.hi, 0, b2u(a)})
			continue
		}
		lo, hi := s.lo, s.hi
		for hi-lo > 1 {
			mid := lo + (hi-lo)/2
			if val(mid) == a {
				lo = mid
			} else {
				hi = mid
			}
		}
		out = append(out, pc{s.lo, lo, 0, b2u(a)}, pc{hi, s.hi, 0, b2u(b)})
	}
	return out, true
}

// eval computes t under an assignment.
func eval(t *Term, asg func(*Var) uint64, memo map[*Term]uint64) uint64 {
	if t.op == OpConst {
		return t.k
	}
	if r, ok := memo[t]; ok {
		return r
	}
	var r uint64
	switch t.op {
	case OpVar:
		r = asg(t.v)
	case OpPW:
		x := asg(t.v)
		for _, p := range t.pcs {
			if x >= p.lo && x <= p.hi {
				r = p.val
				break
			}
		}
	case OpIn:
		r = b2u(ivHas(t.ivs, asg(t.v)))
	case OpLin:
		r = t.k
		for _, l := range t.lin {
			r += l.c * eval(l.t, asg, memo)
		}
		r &= mask(t.w)
	case OpIte:
		if eval(t.a, asg, memo) != 0 {
			r = eval(t.b, asg, memo)
		} else {
			r = eval(t.c, asg, memo)
		}
	case OpBNot:
		r = 1 - eval(t.a, asg, memo)
	case OpZExt, OpSExt, OpTrunc:
		r = fold1(t, eval(t.a, asg, memo))
	default:
		r = fold2(t, eval(t.a, asg, memo), eval(t.b, asg, memo))
	}
	memo[t] = r
	return r
}

func termVars(t *Term, seen map[*Term]bool, out map[*Var]bool) {
	if t == nil || seen[t] {
		return
	}
	seen[t] = true
	if t.op == OpVar || t.op == OpPW || t.op == OpIn {
		out[t.v] = true
	}
	termVars(t.a, seen, out)
	termVars(t.b, seen, out)
	termVars(t.c, seen, out)
	for _, l := range t.lin {
		termVars(l.t, seen, out)
	}
}
