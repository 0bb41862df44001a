package main

import (
	"fmt"
	"go/token"
	"go/types"
	"math"
	"reflect"
	"strings"
	"sync"
	"unicode/utf8"
)

// --- memory -----------------------------------------------------------------

func (m *M) load(pt V, ti *TypeInfo) V {
	switch o := pt.p.(type) {
	case *Obj:
		off := int(pt.n)
		if m.crec {
			m.acc(o, off, ti.cells, false)
		}
		if ti.agg() {
			return V{p: &Agg{append([]V(nil), o.cells[off:off+ti.cells]...)}}
		}
		return o.cells[off]
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	case *SymPtr:
		if ti.agg() {
			return m.load(m.concPtr(o), ti)
		}
		vals := make([]V, o.n)
		if m.crec {
			m.acc(o.o, o.base+o.extra, 1, false)
		}
		for i := range vals {
			vals[i] = o.o.cells[o.base+i*o.esz+o.extra]
		}
		if r, ok := m.selectV(o.idx, vals, ti); ok {
			return r
		}
		return m.load(m.concPtr(o), ti)
	}
	panic(engErr("load through %T", pt.p))
}

func (m *M) store(pt V, v V, ti *TypeInfo) {
	switch o := pt.p.(type) {
	case *Obj:
		off := int(pt.n)
		if m.crec {
			m.acc(o, off, ti.cells, true)
			m.escStore(o, v)
		}
		if ti.agg() {
			a := v.p.(*Agg)
			for i := 0; i < ti.cells; i++ {
				if o.epoch != m.epoch {
					m.log(o, off+i)
				}
				o.cells[off+i] = a.c[i]
			}
			return
		}
		if o.epoch != m.epoch {
			m.log(o, off)
		}
		o.cells[off] = v
	case nil:
		m.rtPanic("invalid memory address or nil pointer dereference")
	case *SymPtr:
		m.store(m.concPtr(o), v, ti)
	default:
		panic(engErr("store through %T", pt.p))
	}
}

func (m *M) concPtr(s *SymPtr) V {
	i := int(m.concretize(s.idx))
	return V{n: uint64(s.base + i*s.esz + s.extra), p: s.o}
}

func (m *M) ptrAdd(v V, off uint64) V {
	switch s := v.p.(type) {
	case *SymPtr:
		c := *s
		c.extra += int(off)
		return V{p: &c}
	}
	panic(engErr("pointer arithmetic on %T", v.p))
}

// selectV builds vals[idx] for a symbolic in-range idx.
func (m *M) selectV(idx *Term, vals []V, ti *TypeInfo) (V, bool) {
	if ti.kind != kInt && ti.kind != kBool {
		return V{}, false
	}
	w := ti.w
	if !idx.multi && idx.v != nil {
		if ps, ok := m.tc.pieces(idx); ok {
			var out []Piece
			n := 0
			for _, p := range ps {
				for x := p.lo; ; x++ {
					i := (x*p.a + p.b) & mask(idx.w)
					var val uint64
					if i < uint64(len(vals)) {
						if vals[i].p != nil {
							return m.selectIte(idx, vals, w)
						}
						val = vals[i].n
					}
					if k := len(out); k > 0 && out[k-1].val == val && out[k-1].hi+1 == x {
						out[k-1].hi = x
					} else {
						out = append(out, Piece{x, x, val})
					}
					n++
					if n > 4096 {
						return V{}, false
					}
					if x == p.hi {
						break
					}
				}
			}
			if w == 0 {
				var ivs []Iv
				for _, p := range out {
					if p.val != 0 {
						ivs = append(ivs, Iv{p.lo, p.hi})
					}
				}
				return tv(m.tc.In(idx.v, ivNorm(ivs))), true
			}
			return tv(m.tc.mkPW(idx.v, out, w)), true
		}
	}
	return m.selectIte(idx, vals, w)
}

func (m *M) selectIte(idx *Term, vals []V, w uint8) (V, bool) {
	if len(vals) > 300 || len(vals) == 0 {
		return V{}, false
	}
	r := m.term(vals[len(vals)-1], w)
	for i := len(vals) - 2; i >= 0; i-- {
		c := m.tc.Eq(idx, m.tc.Const(uint64(i), idx.w))
		r = m.tc.Ite(c, m.term(vals[i], w), r)
	}
	return tv(r), true
}

// idx64 widens an index to 64 bits.
func (m *M) idx64(ti *TypeInfo, v V) V {
	if v.p == nil {
		if ti.signed {
			return V{n: uint64(sext(v.n, ti.w))}
		}
		return v
	}
	t := v.p.(*Term)
	if ti.signed {
		return tv(m.tc.SExt(t, 64))
	}
	return tv(m.tc.ZExt(t, 64))
}

// inRange checks 0 <= i < n, forking on a symbolic index.
func (m *M) inRange(i V, n int) {
	if i.p == nil {
		if i.n >= uint64(n) {
			m.rtPanic(fmt.Sprintf("index out of range [%d] with length %d", int64(i.n), n))
		}
		return
	}
	c := m.tc.Ult(i.p.(*Term), m.tc.Const(uint64(n), 64))
	if !m.branch(c) {
		m.rtPanic("index out of range")
	}
}

func (m *M) indexAddr(ti, iti *TypeInfo, a, iv V) V {
	i := m.idx64(iti, iv)
	var o *Obj
	var base, n, esz int
	if ti.kind == kPtr {
		arr := ti.elem
		if a.p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		var ok bool
		o, ok = a.p.(*Obj)
		if !ok {
			a = m.concPtr(a.p.(*SymPtr))
			o = a.p.(*Obj)
		}
		base, n, esz = int(a.n), arr.n, arr.elem.cells
	} else {
		s, _ := a.p.(*Slice)
		if s == nil {
			m.inRange(i, 0)
		}
		o, base, n, esz = s.o, s.off, s.len, s.esz
	}
	m.inRange(i, n)
	if i.p == nil {
		return V{n: uint64(base + int(i.n)*esz), p: o}
	}
	t := i.p.(*Term)
	if isC(t) {
		return V{n: uint64(base + int(t.k)*esz), p: o}
	}
	return V{p: &SymPtr{o: o, base: base, n: n, esz: esz, idx: t}}
}

func (m *M) index(ti, iti *TypeInfo, a, iv V) V {
	i := m.idx64(iti, iv)
	if ti.kind == kString {
		n := strLen(a)
		m.inRange(i, n)
		if i.p == nil {
			return strByte(a, int(i.n))
		}
		if r, ok := m.selectV(i.p.(*Term), strCells(a), m.p.tByte); ok {
			return r
		}
		return strByte(a, int(m.concretize(i.p.(*Term))))
	}
	ag := a.p.(*Agg)
	m.inRange(i, ti.n)
	esz := ti.elem.cells
	if i.p == nil {
		return aggPart(a, int(i.n)*esz, ti.elem)
	}
	if !ti.elem.agg() {
		if r, ok := m.selectV(i.p.(*Term), ag.c, ti.elem); ok {
			return r
		}
	}
	k := int(m.concretize(i.p.(*Term)))
	return aggPart(a, k*esz, ti.elem)
}

func (m *M) slice(fr *Frame, ti *TypeInfo, a V, lo, hi, mx *opnd) V {
	get := func(o *opnd, def int) int {
		if o == nil {
			return def
		}
		return int(int64(m.concInt(fr.get(*o), 64)))
	}
	if ti.kind == kString {
		n := strLen(a)
		l, h := get(lo, 0), get(hi, n)
		if l < 0 || h < l || h > n {
			m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d] with length %d", l, h, n))
		}
		return strSlice(a, l, h)
	}
	var s Slice
	switch {
	case ti.kind == kSlice:
		x, _ := a.p.(*Slice)
		if x != nil {
			s = *x
		}
	case ti.kind == kPtr:
		if a.p == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		o, ok := a.p.(*Obj)
		if !ok {
			a = m.concPtr(a.p.(*SymPtr))
			o = a.p.(*Obj)
		}
		s = Slice{o, int(a.n), ti.elem.n, ti.elem.n, ti.elem.elem.cells}
	}
	l := get(lo, 0)
	h := get(hi, s.len)
	c := get(mx, s.cap)
	if l < 0 || h < l || c < h || c > s.cap {
		m.rtPanic(fmt.Sprintf("slice bounds out of range [%d:%d:%d] with capacity %d", l, h, c, s.cap))
	}
	if s.o == nil {
		return V{}
	}
	return V{p: &Slice{s.o, s.off + l*s.esz, h - l, c - l, s.esz}}
}

// --- slices -------------------------------------------------------------------

type growKey struct {
	bytes    int64
	noscan   bool
	cap, len int
}

var growCache sync.Map

// growCap gives the capacity the Go runtime picks when appending.
func growCap(ti *TypeInfo, oldCap, newLen int) int {
	e := ti.elem
	if e.bytes == 0 {
		return newLen
	}
	k := growKey{e.bytes, e.noscan, oldCap, newLen}
	if c, ok := growCache.Load(k); ok {
		return c.(int)
	}
	var et reflect.Type
	switch {
	case e.noscan && e.bytes == 8:
		et = reflect.TypeOf(uint64(0))
	case e.noscan && e.bytes == 4:
		et = reflect.TypeOf(uint32(0))
	case e.noscan:
		et = reflect.ArrayOf(int(e.bytes), reflect.TypeOf(byte(0)))
	case e.bytes == 8:
		et = reflect.TypeOf((*int)(nil))
	default:
		et = reflect.ArrayOf(int((e.bytes+7)/8), reflect.TypeOf((*int)(nil)))
	}
	st := reflect.SliceOf(et)
	s := reflect.MakeSlice(st, oldCap, oldCap)
	s = reflect.AppendSlice(s, reflect.MakeSlice(st, newLen-oldCap, newLen-oldCap))
	c := s.Cap()
	growCache.Store(k, c)
	return c
}

// appendCells appends n elements given as cells to slice s.
func (m *M) appendCells(ti *TypeInfo, sv V, cells []V, n int) V {
	s, _ := sv.p.(*Slice)
	if n == 0 {
		return sv
	}
	esz := ti.elem.cells
	if s == nil {
		s = &Slice{esz: esz}
	}
	nl := s.len + n
	if nl <= s.cap {
		off := s.off + s.len*esz
		if m.crec {
			m.acc(s.o, off, len(cells), true)
			for _, c := range cells {
				m.escStore(s.o, c)
			}
		}
		if s.o.epoch != m.epoch {
			for i := range cells {
				m.log(s.o, off+i)
			}
		}
		copy(s.o.cells[off:], cells)
		return V{p: &Slice{s.o, s.off, nl, s.cap, esz}}
	}
	nc := growCap(ti, s.cap, nl)
	o := &Obj{cells: make([]V, nc*esz), epoch: m.epoch}
	if s.o != nil {
		if m.crec && s.len > 0 {
			m.acc(s.o, s.off, s.len*esz, false)
		}
		copy(o.cells, s.o.cells[s.off:s.off+s.len*esz])
	}
	copy(o.cells[s.len*esz:], cells)
	return V{p: &Slice{o, 0, nl, nc, esz}}
}

func sliceCells(v V) []V {
	s, _ := v.p.(*Slice)
	if s == nil {
		return nil
	}
	return s.o.cells[s.off : s.off+s.len*s.esz]
}

func (m *M) newSlice(cells []V, n, esz int) V {
	return V{p: &Slice{&Obj{cells: cells, epoch: m.epoch}, 0, n, n, esz}}
}

// --- builtins -----------------------------------------------------------------

func (m *M) builtin(fr *Frame, name string, a []V, ts []*TypeInfo, rt *TypeInfo) V {
	switch name {
	case "len", "cap":
		switch ts[0].kind {
		case kString:
			return vint(strLen(a[0]))
		case kSlice:
			s, _ := a[0].p.(*Slice)
			if s == nil {
				return V{}
			}
			if name == "cap" {
				return vint(s.cap)
			}
			return vint(s.len)
		case kMap:
			mp, _ := a[0].p.(*Map)
			if mp == nil {
				return V{}
			}
			if m.crec {
				m.accMap(mp, false)
			}
			return vint(mp.live)
		case kArray:
			return vint(ts[0].n)
		case kPtr:
			return vint(ts[0].elem.n)
		case kChan:
			return V{}
		}
	case "append":
		if len(a) == 1 {
			return a[0]
		}
		if ts[1].kind == kString {
			c := strCells(a[1])
			return m.appendCells(ts[0], a[0], c, len(c))
		}
		s, _ := a[1].p.(*Slice)
		if s == nil {
			return a[0]
		}
		cells := s.o.cells[s.off : s.off+s.len*s.esz]
		if m.crec {
			m.acc(s.o, s.off, len(cells), false)
		}
		cells = append([]V(nil), cells...)
		return m.appendCells(ts[0], a[0], cells, s.len)
	case "copy":
		d, _ := a[0].p.(*Slice)
		if d == nil {
			return V{}
		}
		var src []V
		n := 0
		if ts[1].kind == kString {
			src = strCells(a[1])
			n = len(src)
		} else if s, _ := a[1].p.(*Slice); s != nil {
			src = s.o.cells[s.off : s.off+s.len*s.esz]
			n = s.len
		}
		if d.len < n {
			n = d.len
		}
		if n == 0 {
			return V{}
		}
		if m.crec {
			if s, _ := a[1].p.(*Slice); s != nil && ts[1].kind != kString {
				m.acc(s.o, s.off, n*d.esz, false)
			}
			m.acc(d.o, d.off, n*d.esz, true)
			for _, c := range src[:n*d.esz] {
				m.escStore(d.o, c)
			}
		}
		if d.o.epoch != m.epoch {
			for i := 0; i < n*d.esz; i++ {
				m.log(d.o, d.off+i)
			}
		}
		copy(d.o.cells[d.off:d.off+n*d.esz], src[:n*d.esz])
		return vint(n)
	case "delete":
		m.mapDelete(ts[0], a[0], a[1])
		return V{}
	case "clear":
		if ts[0].kind == kMap {
			if mp, _ := a[0].p.(*Map); mp != nil {
				if m.crec {
					m.accMap(mp, true)
				}
				m.mapTouch(mp)
				mp.idx = map[any]int{}
				mp.ents = nil
				mp.live = 0
				mp.nsym = 0
			}
			return V{}
		}
		if s, _ := a[0].p.(*Slice); s != nil {
			if m.crec {
				m.acc(s.o, s.off, s.len*s.esz, true)
			}
			for i := 0; i < s.len*s.esz; i++ {
				if s.o.epoch != m.epoch {
					m.log(s.o, s.off+i)
				}
				s.o.cells[s.off+i] = V{}
			}
		}
		return V{}
	case "print", "println":
		return V{}
	case "recover":
		return m.doRecover(fr)
	case "ssa:wrapnilchk":
		if a[0].p == nil {
			m.rtPanic("value method called using nil pointer")
		}
		return a[0]
	case "min", "max":
		r := a[0]
		for _, x := range a[1:] {
			op := token.LSS
			if name == "max" {
				op = token.GTR
			}
			c := m.binop(op, ts[0], ts[0], x, r)
			if c.p == nil {
				if c.n != 0 {
					r = x
				}
				continue
			}
			v, ok := m.iteV(c.p.(*Term), x, r, ts[0])
			if !ok {
				if m.branch(c.p.(*Term)) {
					v = x
				} else {
					v = r
				}
			}
			r = v
		}
		return r
	case "String": // unsafe.String(ptr, len)
		n := int(m.concInt(a[1], 64))
		if n == 0 {
			return V{}
		}
		o := a[0].p.(*Obj)
		off := int(a[0].n)
		if m.crec {
			m.acc(o, off, n, false)
		}
		return mkStr(append([]V(nil), o.cells[off:off+n]...))
	case "SliceData":
		s, _ := a[0].p.(*Slice)
		if s == nil {
			return V{}
		}
		return V{n: uint64(s.off), p: s.o}
	case "StringData":
		c := strCells(a[0])
		if len(c) == 0 {
			return V{}
		}
		return V{p: &Obj{cells: append([]V(nil), c...), epoch: m.epoch}}
	case "Slice": // unsafe.Slice
		n := int(m.concInt(a[1], 64))
		if a[0].p == nil {
			return V{}
		}
		o := a[0].p.(*Obj)
		return V{p: &Slice{o, int(a[0].n), n, n, ts[0].elem.cells}}
	case "ssa:deferstack":
		return V{}
	}
	m.unsupported("builtin %s on %v", name, ts[0].str)
	return V{}
}

// --- equality, comparison ------------------------------------------------------

// eq returns a boolean term.
func (m *M) eq(ti *TypeInfo, a, b V) *Term {
	tc := m.tc
	switch ti.kind {
	case kInt, kBool:
		if a.p == nil && b.p == nil {
			return tc.Bool(a.n == b.n)
		}
		return tc.Eq(m.term(a, ti.w), m.term(b, ti.w))
	case kString:
		return m.strEq(a, b)
	case kFloat:
		if a.p == nil && b.p == nil {
			return tc.Bool(math.Float64frombits(a.n) == math.Float64frombits(b.n))
		}
		x, y, ok := m.floatTerms(a, b)
		if !ok {
			m.unsupported("float comparison")
		}
		return tc.Eq(x, y)
	case kPtr, kUnsafe:
		if a.p == nil || b.p == nil {
			return tc.Bool(a.p == nil && b.p == nil)
		}
		if x, ok := a.p.(*SymPtr); ok {
			a = m.concPtr(x)
		}
		if x, ok := b.p.(*SymPtr); ok {
			b = m.concPtr(x)
		}
		return tc.Bool(a.p == b.p && a.n == b.n)
	case kMap, kChan, kSlice:
		return tc.Bool(a.p == nil && b.p == nil || a.p != nil && a.p == b.p)
	case kFunc:
		return tc.Bool(a.p == nil && b.p == nil)
	case kIface:
		x, _ := a.p.(*Iface)
		y, _ := b.p.(*Iface)
		if x == nil || y == nil {
			return tc.Bool(x == nil && y == nil)
		}
		if x.ti != y.ti {
			return tc.tFalse
		}
		switch x.ti.kind {
		case kMap, kSlice, kFunc:
			m.rtPanic("comparing uncomparable type " + x.ti.str)
		}
		return m.eq(x.ti, x.v, y.v)
	case kStruct:
		r := tc.tTrue
		for i := range ti.fields {
			f := ti.fields[i]
			r = tc.And(r, m.eq(f.ti, aggPart(a, f.off, f.ti), aggPart(b, f.off, f.ti)))
		}
		return r
	case kArray:
		r := tc.tTrue
		for i := 0; i < ti.n; i++ {
			e := ti.elem
			r = tc.And(r, m.eq(e, aggPart(a, i*e.cells, e), aggPart(b, i*e.cells, e)))
		}
		return r
	}
	panic(engErr("eq on %s", ti.str))
}

func (m *M) strEq(a, b V) *Term {
	tc := m.tc
	x, ok1 := strConc(a)
	y, ok2 := strConc(b)
	if ok1 && ok2 {
		return tc.Bool(x == y)
	}
	n := strLen(a)
	if n != strLen(b) {
		return tc.tFalse
	}
	r := tc.tTrue
	ca, cb := strCells(a), strCells(b)
	for i := 0; i < n; i++ {
		if ca[i] == cb[i] {
			continue
		}
		e := tc.Eq(m.term(ca[i], 8), m.term(cb[i], 8))
		if e == tc.tFalse {
			return e
		}
		r = tc.And(r, e)
	}
	return r
}

// strLess decides a < b, forking as needed.
func (m *M) strLess(a, b V) bool {
	x, ok1 := strConc(a)
	y, ok2 := strConc(b)
	if ok1 && ok2 {
		return x < y
	}
	ca, cb := strCells(a), strCells(b)
	for i := 0; i < len(ca) && i < len(cb); i++ {
		p, q := m.term(ca[i], 8), m.term(cb[i], 8)
		if m.branch(m.tc.Eq(p, q)) {
			continue
		}
		return m.branch(m.tc.Ult(p, q))
	}
	return len(ca) < len(cb)
}

func (m *M) floatTerms(a, b V) (x, y *Term, ok bool) {
	get := func(v V) *Term {
		if s, ok := v.p.(*SFloat); ok {
			return s.t
		}
		if v.p != nil {
			return nil
		}
		f := math.Float64frombits(v.n)
		if f != math.Trunc(f) || math.Abs(f) > 1<<52 {
			return nil
		}
		return m.tc.Const(uint64(int64(f)), 64)
	}
	x, y = get(a), get(b)
	return x, y, x != nil && y != nil
}

func (m *M) floatNeg(v V) V {
	if v.p == nil {
		return vflt(-math.Float64frombits(v.n))
	}
	return V{p: &SFloat{m.tc.Neg(v.p.(*SFloat).t)}}
}

// concFloat forces a symbolic integer-valued float to a concrete value.
func (m *M) concFloat(v V) V {
	if s, ok := v.p.(*SFloat); ok {
		return vflt(float64(int64(m.concretize(s.t))))
	}
	return v
}

func (m *M) floatSmall(t *Term) bool {
	lo, hi, ok := m.tc.srange(t)
	return ok && lo > -(1<<51) && hi < 1<<51
}

func (m *M) binop(op token.Token, ti, yt *TypeInfo, a, b V) V {
	tc := m.tc
	switch op {
	case token.EQL:
		return tv(m.eq(ti, a, b))
	case token.NEQ:
		return tv(tc.Not(m.eq(ti, a, b)))
	}
	switch ti.kind {
	case kString:
		switch op {
		case token.ADD:
			return strCat(a, b)
		case token.LSS:
			return vbool(m.strLess(a, b))
		case token.GTR:
			return vbool(m.strLess(b, a))
		case token.LEQ:
			return vbool(!m.strLess(b, a))
		case token.GEQ:
			return vbool(!m.strLess(a, b))
		}
	case kFloat:
		if a.p != nil || b.p != nil {
			if x, y, ok := m.floatTerms(a, b); ok {
				switch op {
				case token.ADD:
					if r := tc.Add(x, y); m.floatSmall(r) {
						return fv(r)
					}
				case token.SUB:
					if r := tc.Sub(x, y); m.floatSmall(r) {
						return fv(r)
					}
				case token.MUL:
					if isC(x) || isC(y) {
						if r := tc.Mul(x, y); m.floatSmall(r) {
							return fv(r)
						}
					}
				case token.LSS:
					return tv(tc.Slt(x, y))
				case token.GTR:
					return tv(tc.Slt(y, x))
				case token.LEQ:
					return tv(tc.Not(tc.Slt(y, x)))
				case token.GEQ:
					return tv(tc.Not(tc.Slt(x, y)))
				}
			}
			a, b = m.concFloat(a), m.concFloat(b)
		}
		x, y := math.Float64frombits(a.n), math.Float64frombits(b.n)
		if ti.w == 32 {
			switch op {
			case token.ADD:
				return vflt(float64(float32(x) + float32(y)))
			case token.SUB:
				return vflt(float64(float32(x) - float32(y)))
			case token.MUL:
				return vflt(float64(float32(x) * float32(y)))
			case token.QUO:
				return vflt(float64(float32(x) / float32(y)))
			}
		}
		switch op {
		case token.ADD:
			return vflt(x + y)
		case token.SUB:
			return vflt(x - y)
		case token.MUL:
			return vflt(x * y)
		case token.QUO:
			return vflt(x / y)
		case token.LSS:
			return vbool(x < y)
		case token.LEQ:
			return vbool(x <= y)
		case token.GTR:
			return vbool(x > y)
		case token.GEQ:
			return vbool(x >= y)
		}
	case kBool:
		x, y := m.term(a, 0), m.term(b, 0)
		switch op {
		case token.AND:
			return tv(tc.And(x, y))
		case token.OR:
			return tv(tc.Or(x, y))
		}
	case kInt:
		return m.intOp(op, ti, yt, a, b)
	}
	m.unsupported("binop %s on %s", op, ti.str)
	return V{}
}

func fv(t *Term) V {
	if isC(t) {
		return vflt(float64(int64(t.k)))
	}
	return V{p: &SFloat{t}}
}

func (m *M) intOp(op token.Token, ti, yt *TypeInfo, a, b V) V {
	tc := m.tc
	w := ti.w
	switch op {
	case token.SHL, token.SHR:
		if b.p == nil {
			if yt.signed && sext(b.n, yt.w) < 0 {
				m.rtPanic("negative shift amount")
			}
			cnt := b.n
			if a.p == nil {
				switch {
				case op == token.SHL:
					if cnt >= 64 {
						return V{}
					}
					return V{n: a.n << cnt & mask(w)}
				case ti.signed:
					if cnt >= 64 {
						cnt = 63
					}
					return V{n: uint64(sext(a.n, w)>>cnt) & mask(w)}
				}
				if cnt >= 64 {
					return V{}
				}
				return V{n: a.n >> cnt}
			}
			if cnt >= uint64(w) {
				if op == token.SHR && ti.signed {
					cnt = uint64(w) - 1
				} else {
					return V{}
				}
			}
			return tv(tc.Bit(shOp(op, ti.signed), a.p.(*Term), tc.Const(cnt, w)))
		}
		y := b.p.(*Term)
		if yt.signed {
			neg := tc.Slt(y, tc.Const(0, y.w))
			if neg != tc.tFalse && m.branch(neg) {
				m.rtPanic("negative shift amount")
			}
		}
		x := m.term(a, w)
		// saturate the count to the width of x
		var cnt *Term
		if y.w > w {
			big := tc.Not(tc.Ult(y, tc.Const(uint64(w), y.w)))
			cnt = tc.Ite(big, tc.Const(uint64(w), w), tc.Trunc(y, w))
		} else {
			cnt = tc.ZExt(y, w)
		}
		return tv(tc.Bit(shOp(op, ti.signed), x, cnt))
	}
	x, y := m.term(a, w), m.term(b, w)
	switch op {
	case token.ADD:
		return tv(tc.Add(x, y))
	case token.SUB:
		return tv(tc.Sub(x, y))
	case token.MUL:
		return tv(tc.Mul(x, y))
	case token.QUO, token.REM:
		if isC(y) {
			if y.k == 0 {
				m.rtPanic("integer divide by zero")
			}
		} else if m.branch(tc.Eq(y, tc.Const(0, w))) {
			m.rtPanic("integer divide by zero")
		}
		return tv(tc.Div(x, y, ti.signed, op == token.REM))
	case token.AND:
		return tv(tc.Bit(OpAnd, x, y))
	case token.OR:
		return tv(tc.Bit(OpOr, x, y))
	case token.XOR:
		return tv(tc.Bit(OpXor, x, y))
	case token.AND_NOT:
		return tv(tc.Bit(OpAnd, x, tc.Bit(OpXor, y, tc.Const(mask(w), w))))
	}
	lt := tc.Ult
	if ti.signed {
		lt = tc.Slt
	}
	switch op {
	case token.LSS:
		return tv(lt(x, y))
	case token.GTR:
		return tv(lt(y, x))
	case token.LEQ:
		return tv(tc.Not(lt(y, x)))
	case token.GEQ:
		return tv(tc.Not(lt(x, y)))
	}
	panic(engErr("intOp %s", op))
}

func shOp(op token.Token, signed bool) Op {
	if op == token.SHL {
		return OpShl
	}
	if signed {
		return OpAShr
	}
	return OpLShr
}

// --- conversions -----------------------------------------------------------------

func (m *M) convert(from, to *TypeInfo, v V) V {
	tc := m.tc
	switch to.kind {
	case kInt:
		switch from.kind {
		case kInt:
			if v.p == nil {
				if from.signed {
					return V{n: uint64(sext(v.n, from.w)) & mask(to.w)}
				}
				return V{n: v.n & mask(to.w)}
			}
			t := v.p.(*Term)
			switch {
			case to.w < from.w:
				return tv(tc.Trunc(t, to.w))
			case from.signed:
				return tv(tc.SExt(t, to.w))
			}
			return tv(tc.ZExt(t, to.w))
		case kFloat:
			if s, ok := v.p.(*SFloat); ok {
				return tv(tc.Trunc(s.t, to.w))
			}
			f := math.Float64frombits(v.n)
			if to.signed {
				return V{n: uint64(int64(f)) & mask(to.w)}
			}
			return V{n: uint64(f) & mask(to.w)}
		case kUnsafe, kPtr:
			m.unsupported("pointer to integer conversion")
		}
	case kFloat:
		switch from.kind {
		case kInt:
			if v.p != nil {
				var t *Term
				if from.signed {
					t = tc.SExt(v.p.(*Term), 64)
				} else {
					t = tc.ZExt(v.p.(*Term), 64)
				}
				if m.floatSmall(t) {
					return V{p: &SFloat{t}}
				}
				v = V{n: m.concretize(v.p.(*Term))}
			}
			if from.signed {
				return vflt(float64(sext(v.n, from.w)))
			}
			return vflt(float64(v.n))
		case kFloat:
			if to.w == 32 && v.p == nil {
				return vflt(float64(float32(math.Float64frombits(v.n))))
			}
			return v
		}
	case kString:
		switch from.kind {
		case kString:
			return v
		case kInt:
			return mkStr(m.encodeRune(nil, m.runeOf(from, v)))
		case kSlice:
			if from.elem.bytes == 1 {
				return mkStr(append([]V(nil), sliceCells(v)...))
			}
			var out []V
			for _, c := range sliceCells(v) {
				out = m.encodeRune(out, c)
			}
			return mkStr(out)
		}
	case kSlice:
		if from.kind == kString {
			if to.elem.bytes == 1 {
				c := append([]V(nil), strCells(v)...)
				return m.newSlice(c, len(c), 1)
			}
			var out []V
			cells := strCells(v)
			for i := 0; i < len(cells); {
				r, n := m.decodeRune(cells[i:])
				out = append(out, r)
				i += n
			}
			if out == nil {
				out = []V{}
			}
			return m.newSlice(out, len(out), 1)
		}
		return v
	}
	return v
}

func (m *M) runeOf(from *TypeInfo, v V) V {
	if v.p == nil {
		x := sext(v.n, from.w)
		if !from.signed {
			x = int64(v.n)
		}
		if x < 0 || x > utf8.MaxRune {
			return V{n: utf8.RuneError}
		}
		return V{n: uint64(x)}
	}
	t := v.p.(*Term)
	if t.w < 32 {
		return tv(m.tc.ZExt(t, 32))
	}
	if t.w > 32 {
		return tv(m.tc.Trunc(t, 32))
	}
	return v
}

type encOrigin struct {
	r    *Term
	i, n int
}

// encodeRune appends the UTF-8 encoding of a rune (32-bit), forking on the
// length class of a symbolic rune.
func (m *M) encodeRune(out []V, r V) []V {
	if r.p == nil {
		var buf [4]byte
		x := sext(r.n, 32)
		if x < 0 || x > utf8.MaxRune {
			x = utf8.RuneError
		}
		n := utf8.EncodeRune(buf[:], rune(x))
		for i := 0; i < n; i++ {
			out = append(out, V{n: uint64(buf[i])})
		}
		return out
	}
	tc := m.tc
	t := r.p.(*Term)
	lt := func(k uint64) *Term { return tc.Ult(t, tc.Const(k, 32)) }
	one, two := lt(0x80), lt(0x800)
	three := lt(0x10000)
	surr := tc.And(tc.Not(lt(0xD800)), lt(0xE000))
	valid := lt(0x110000)
	conds := []*Term{
		one,
		tc.And(tc.Not(one), two),
		tc.And(tc.And(tc.Not(two), three), tc.Not(surr)),
		tc.And(tc.Not(three), valid),
		tc.Or(surr, tc.Not(valid)),
	}
	k := m.decide(conds, nil)
	b := func(shift uint64, or, and uint64) *Term {
		x := tc.Bit(OpLShr, t, tc.Const(shift, 32))
		if and != 0 {
			x = tc.Bit(OpAnd, x, tc.Const(and, 32))
		}
		return tc.Bit(OpOr, tc.Trunc(x, 8), tc.Const(or, 8))
	}
	add := func(x *Term, i, n int) {
		if !isC(x) {
			m.enc[x] = encOrigin{t, i, n}
		}
		out = append(out, tv(x))
	}
	switch k {
	case 0:
		x := tc.Trunc(t, 8)
		out = append(out, tv(x))
	case 1:
		add(b(6, 0xC0, 0), 0, 2)
		add(b(0, 0x80, 0x3f), 1, 2)
	case 2:
		add(b(12, 0xE0, 0), 0, 3)
		add(b(6, 0x80, 0x3f), 1, 3)
		add(b(0, 0x80, 0x3f), 2, 3)
	case 3:
		add(b(18, 0xF0, 0), 0, 4)
		add(b(12, 0x80, 0x3f), 1, 4)
		add(b(6, 0x80, 0x3f), 2, 4)
		add(b(0, 0x80, 0x3f), 3, 4)
	default:
		out = append(out, V{n: 0xEF}, V{n: 0xBF}, V{n: 0xBD})
	}
	return out
}

// decodeRune decodes the first rune of a non-empty cell string.
func (m *M) decodeRune(c []V) (V, int) {
	tc := m.tc
	b0 := c[0]
	if b0.p == nil && b0.n < 0x80 {
		return b0, 1
	}
	allConc := true
	lim := min(len(c), 4)
	for i := 0; i < lim; i++ {
		if c[i].p != nil {
			allConc = false
			break
		}
	}
	if allConc {
		var buf [4]byte
		for i := 0; i < lim; i++ {
			buf[i] = byte(c[i].n)
		}
		r, n := utf8.DecodeRune(buf[:lim])
		return V{n: uint64(uint32(r))}, n
	}
	if t, ok := b0.p.(*Term); ok {
		if o, ok := m.enc[t]; ok && o.i == 0 && len(c) >= o.n {
			match := true
			for i := 1; i < o.n; i++ {
				ti, ok := c[i].p.(*Term)
				if ok {
					oi, ok2 := m.enc[ti]
					if !ok2 || oi.r != o.r || oi.i != i || oi.n != o.n {
						match = false
					}
				} else {
					match = false
				}
			}
			if match {
				return V{p: o.r}, o.n
			}
		}
	}
	// general case: fork on the byte classes of the UTF-8 table
	t0 := m.term(b0, 8)
	k8 := func(x uint64) *Term { return tc.Const(x, 8) }
	in := func(t *Term, lo, hi uint64) *Term {
		return tc.And(tc.Not(tc.Ult(t, k8(lo))), tc.Not(tc.Ult(k8(hi), t)))
	}
	bad := V{n: utf8.RuneError}
	classes := [][2]uint64{{0, 0x7f}, {0xC2, 0xDF}, {0xE0, 0xE0}, {0xE1, 0xEC}, {0xED, 0xED}, {0xEE, 0xEF}, {0xF0, 0xF0}, {0xF1, 0xF3}, {0xF4, 0xF4}}
	var conds []*Term
	rest := tc.tTrue
	for _, cl := range classes {
		x := in(t0, cl[0], cl[1])
		conds = append(conds, x)
		rest = tc.And(rest, tc.Not(x))
	}
	conds = append(conds, rest)
	k := m.decide(conds, nil)
	if k == 0 {
		return tv(tc.ZExt(t0, 32)), 1
	}
	if k == len(classes) {
		return bad, 1
	}
	n := 2
	if k >= 2 {
		n = 3
	}
	if k >= 6 {
		n = 4
	}
	if len(c) < 2 {
		return bad, 1
	}
	lo, hi := uint64(0x80), uint64(0xBF)
	switch k {
	case 2:
		lo = 0xA0
	case 4:
		hi = 0x9F
	case 6:
		lo = 0x90
	case 8:
		hi = 0x8F
	}
	z := func(v V, and uint64) *Term {
		return tc.Bit(OpAnd, tc.ZExt(m.term(v, 8), 32), tc.Const(and, 32))
	}
	first := uint64(0x1f)
	if n == 3 {
		first = 0xf
	} else if n == 4 {
		first = 7
	}
	r := z(b0, first)
	for i := 1; i < n; i++ {
		if i >= len(c) {
			return bad, 1
		}
		ti := m.term(c[i], 8)
		if !m.branch(in(ti, lo, hi)) {
			return bad, 1
		}
		lo, hi = 0x80, 0xBF
		r = tc.Bit(OpOr, tc.Bit(OpShl, r, tc.Const(6, 32)), z(c[i], 0x3f))
	}
	return tv(r), n
}

// --- interfaces -------------------------------------------------------------------

func (m *M) typeAssert(ti *TypeInfo, v V, commaOk bool) V {
	if x, ok := v.p.(*Iface); ok && x.ti == m.p.tPoison {
		m.abort("poison", "")
	}
	itf, _ := v.p.(*Iface)
	ok := false
	var r V
	if itf != nil {
		if ti.kind == kIface {
			ok = m.p.implements(itf.ti, ti)
			r = v
		} else {
			ok = itf.ti == ti
			r = itf.v
		}
	}
	if commaOk {
		if !ok {
			r = ti.zero()
		}
		return V{p: &Tuple{[]V{r, vbool(ok)}}}
	}
	if !ok {
		m.rtPanic("interface conversion: not " + ti.str)
	}
	return r
}

// --- maps ---------------------------------------------------------------------------

// mapTouch saves a base map before its first change on a path.
func (m *M) mapTouch(mp *Map) {
	if mp.epoch == m.epoch {
		return
	}
	if m.mapSave == nil {
		m.mapSave = map[*Map]*Map{}
	}
	if _, ok := m.mapSave[mp]; ok {
		return
	}
	c := &Map{idx: make(map[any]int, len(mp.idx)), live: mp.live, nsym: mp.nsym, epoch: mp.epoch}
	for k, v := range mp.idx {
		c.idx[k] = v
	}
	c.ents = append([]mapEnt(nil), mp.ents...)
	m.mapSave[mp] = c
}

type ptrKey struct {
	p any
	n uint64
}
type ifKey struct {
	ti *TypeInfo
	k  any
}

// mapKey gives a comparable Go value for a concrete key; ok is false if the
// key is symbolic.
func (m *M) mapKey(ti *TypeInfo, k V) (any, bool) {
	switch ti.kind {
	case kInt, kBool:
		if k.p != nil {
			return nil, false
		}
		return k.n, true
	case kFloat:
		if k.p != nil {
			return nil, false
		}
		return k.n, true
	case kString:
		s, ok := strConc(k)
		return s, ok
	case kPtr, kUnsafe, kChan:
		if x, ok := k.p.(*SymPtr); ok {
			k = m.concPtr(x)
		}
		return ptrKey{k.p, k.n}, true
	case kIface:
		itf, _ := k.p.(*Iface)
		if itf == nil {
			return nil, true
		}
		switch itf.ti.kind {
		case kMap, kSlice, kFunc:
			m.rtPanic("hash of unhashable type " + itf.ti.str)
		}
		x, ok := m.mapKey(itf.ti, itf.v)
		return ifKey{itf.ti, x}, ok
	case kStruct:
		var sb strings.Builder
		for _, f := range ti.fields {
			x, ok := m.mapKey(f.ti, aggPart(k, f.off, f.ti))
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T%v;", x, x)
		}
		return sb.String(), true
	case kArray:
		var sb strings.Builder
		for i := 0; i < ti.n; i++ {
			x, ok := m.mapKey(ti.elem, aggPart(k, i*ti.elem.cells, ti.elem))
			if !ok {
				return nil, false
			}
			fmt.Fprintf(&sb, "%T%v;", x, x)
		}
		return sb.String(), true
	}
	panic(engErr("map key %s", ti.str))
}

// mapFind returns the entry index of key k, or -1.
func (m *M) mapFind(ti *TypeInfo, mp *Map, k V) int {
	if mp == nil {
		return -1
	}
	key, ok := m.mapKey(ti.key, k)
	if ok && mp.nsym == 0 {
		if i, ok := mp.idx[key]; ok {
			return i
		}
		return -1
	}
	for i := range mp.ents {
		if !mp.ents[i].live {
			continue
		}
		c := m.eq(ti.key, mp.ents[i].k, k)
		if isC(c) {
			if c.k != 0 {
				return i
			}
			continue
		}
		if m.branch(c) {
			return i
		}
	}
	return -1
}

func (m *M) mapLookup(ti *TypeInfo, mv, k V, commaOk bool) V {
	mp, _ := mv.p.(*Map)
	if m.crec {
		m.accMap(mp, false)
	}
	// one symbolic key over concrete entries with mergeable values
	if kt, ok := k.p.(*Term); ok && mp != nil && mp.nsym == 0 && (ti.elem.kind == kInt || ti.elem.kind == kBool) && mp.live <= 300 {
		r := m.term(V{}, ti.elem.w)
		found := m.tc.tFalse
		for i := range mp.ents {
			e := mp.ents[i]
			if !e.live {
				continue
			}
			c := m.tc.Eq(kt, m.term(e.k, ti.key.w))
			r = m.tc.Ite(c, m.term(e.v, ti.elem.w), r)
			found = m.tc.Or(found, c)
		}
		if commaOk {
			return V{p: &Tuple{[]V{tv(r), tv(found)}}}
		}
		return tv(r)
	}
	i := m.mapFind(ti, mp, k)
	r := V{}
	if i >= 0 {
		r = mp.ents[i].v
	} else {
		r = ti.elem.zero()
	}
	if commaOk {
		return V{p: &Tuple{[]V{r, vbool(i >= 0)}}}
	}
	return r
}

func (m *M) mapUpdate(ti *TypeInfo, mv, k, v V) {
	mp, _ := mv.p.(*Map)
	if mp == nil {
		m.rtPanic("assignment to entry in nil map")
	}
	if m.crec {
		m.accMap(mp, true)
		if mp.epoch < m.epoch || mp.esc {
			m.escape(k)
			m.escape(v)
		}
	}
	m.mapTouch(mp)
	i := m.mapFind(ti, mp, k)
	if i >= 0 {
		mp.ents[i].v = v
		return
	}
	key, ok := m.mapKey(ti.key, k)
	mp.ents = append(mp.ents, mapEnt{k, v, true})
	mp.live++
	if ok {
		mp.idx[key] = len(mp.ents) - 1
	} else {
		mp.nsym++
	}
}

func (m *M) mapDelete(ti *TypeInfo, mv, k V) {
	mp, _ := mv.p.(*Map)
	if mp == nil {
		return
	}
	i := m.mapFind(ti, mp, k)
	if m.crec {
		m.accMap(mp, true)
	}
	if i < 0 {
		return
	}
	m.mapTouch(mp)
	key, ok := m.mapKey(ti.key, mp.ents[i].k)
	mp.ents[i].live = false
	mp.live--
	if ok {
		delete(mp.idx, key)
	} else {
		mp.nsym--
	}
}

// --- range iteration ------------------------------------------------------------------

type iter struct {
	mp  *Map
	str []V
	i   int
}

func (m *M) iterNew(v V) V {
	it := &iter{}
	switch x := v.p.(type) {
	case *Map:
		it.mp = x
	case nil:
	default:
		it.str = strCells(v)
	}
	return V{p: it}
}

func (m *M) iterNext(v V, isStr bool, kt, vt *TypeInfo) V {
	it := v.p.(*iter)
	if isStr {
		if it.i >= len(it.str) {
			return V{p: &Tuple{[]V{V{}, V{}, V{}}}}
		}
		pos := it.i
		r, n := m.decodeRune(it.str[it.i:])
		it.i += n
		return V{p: &Tuple{[]V{vbool(true), vint(pos), r}}}
	}
	if it.mp != nil {
		if m.crec {
			m.accMap(it.mp, false)
		}
		for it.i < len(it.mp.ents) {
			e := it.mp.ents[it.i]
			it.i++
			if e.live {
				return V{p: &Tuple{[]V{vbool(true), e.k, e.v}}}
			}
		}
	}
	var kz, vz V
	if kt.kind != kInvalid && kt.cells > 0 {
		kz = kt.zero()
	}
	if vt.kind != kInvalid && vt.cells > 0 {
		vz = vt.zero()
	}
	return V{p: &Tuple{[]V{V{}, kz, vz}}}
}

var _ types.Type
