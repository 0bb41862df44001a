package main

import (
	"go/token"
	"go/types"

	"golang.org/x/tools/go/ssa"
)

type opnd struct {
	reg int
	c   V
}

type termKind uint8

const (
	tJump termKind = iota
	tIf
	tRet
	tPanic
)

type phi struct {
	dst   int
	edges []opnd
	ti    *TypeInfo
}

type Block struct {
	idx   int
	rpo   int
	phis  []phi
	code  []func(fr *Frame)
	term  termKind
	cond  opnd
	rets  []opnd
	succs []*Block
	slot  []int // predecessor slot in succs[i]
	pure  bool
	b     *ssa.BasicBlock
}

type comp struct {
	fn  *Fn
	p   *Prog
	reg map[ssa.Value]int
}

func (fn *Fn) compile() {
	f := fn.f
	c := &comp{fn: fn, p: fn.p, reg: map[ssa.Value]int{}}
	n := 0
	for _, x := range f.Params {
		c.reg[x] = n
		n++
	}
	for _, x := range f.FreeVars {
		c.reg[x] = n
		n++
	}
	if len(f.Blocks) == 0 {
		fn.noBody = true
		fn.nregs = n
		return
	}
	if fn.intr != nil && !intrFallback[fn.name] {
		fn.nregs = n
		return
	}
	for _, b := range f.Blocks {
		for _, in := range b.Instrs {
			if v, ok := in.(ssa.Value); ok {
				c.reg[v] = n
				n++
			}
			if _, ok := in.(*ssa.Defer); ok {
				fn.defers = true
			}
		}
	}
	fn.nregs = n
	fn.blocks = make([]*Block, len(f.Blocks))
	for i, b := range f.Blocks {
		fn.blocks[i] = &Block{idx: i, b: b}
	}
	// reverse postorder
	seen := make([]bool, len(f.Blocks))
	var post []*ssa.BasicBlock
	var dfs func(b *ssa.BasicBlock)
	dfs = func(b *ssa.BasicBlock) {
		seen[b.Index] = true
		for _, s := range b.Succs {
			if !seen[s.Index] {
				dfs(s)
			}
		}
		post = append(post, b)
	}
	dfs(f.Blocks[0])
	if f.Recover != nil && !seen[f.Recover.Index] {
		dfs(f.Recover)
	}
	for i, b := range post {
		fn.blocks[b.Index].rpo = len(post) - i
	}
	for i, b := range f.Blocks {
		c.block(fn.blocks[i], b)
	}
	if f.Recover != nil {
		fn.recov = fn.blocks[f.Recover.Index]
	}
}

func (c *comp) op(v ssa.Value) opnd {
	switch x := v.(type) {
	case *ssa.Const:
		return opnd{reg: -1, c: c.p.constV(x)}
	case *ssa.Global:
		return opnd{reg: -2 - c.p.globalID(x)}
	case *ssa.Function:
		return opnd{reg: -1, c: V{p: c.p.fn(x).clo}}
	case *ssa.Builtin:
		return opnd{reg: -1, c: V{p: &Closure{bound: x}}}
	}
	r, ok := c.reg[v]
	if !ok {
		panic(engErr("no register for %s in %s", v.Name(), c.fn.name))
	}
	return opnd{reg: r}
}

func (c *comp) ops(vs []ssa.Value) []opnd {
	out := make([]opnd, len(vs))
	for i, v := range vs {
		out[i] = c.op(v)
	}
	return out
}

func (c *comp) block(b *Block, sb *ssa.BasicBlock) {
	b.pure = true
	for _, s := range sb.Succs {
		b.succs = append(b.succs, c.fn.blocks[s.Index])
	}
	for i, s := range sb.Succs {
		nth := 0
		for j := 0; j < i; j++ {
			if sb.Succs[j] == s {
				nth++
			}
		}
		slot := -1
		for k, p := range s.Preds {
			if p == sb {
				if nth == 0 {
					slot = k
					break
				}
				nth--
			}
		}
		b.slot = append(b.slot, slot)
	}
	for _, in := range sb.Instrs {
		switch x := in.(type) {
		case *ssa.Phi:
			b.phis = append(b.phis, phi{dst: c.reg[x], edges: c.ops(x.Edges), ti: c.p.typ(x.Type())})
			continue
		case *ssa.Jump:
			b.term = tJump
			continue
		case *ssa.If:
			b.term = tIf
			b.cond = c.op(x.Cond)
			continue
		case *ssa.Return:
			b.term = tRet
			b.rets = c.ops(x.Results)
			b.pure = false
			continue
		case *ssa.Panic:
			b.term = tPanic
			b.cond = c.op(x.X)
			b.pure = false
			continue
		case *ssa.DebugRef:
			continue
		}
		fn, pure := c.instr(in)
		if !pure {
			b.pure = false
		}
		if fn != nil {
			b.code = append(b.code, fn)
		}
	}
}

// instr compiles one instruction; pure tells whether it may run speculatively.
func (c *comp) instr(in ssa.Instruction) (func(fr *Frame), bool) {
	p := c.p
	dst := -1
	if v, ok := in.(ssa.Value); ok {
		dst = c.reg[v]
	}
	switch x := in.(type) {
	case *ssa.Alloc:
		ti := p.typ(x.Type().Underlying().(*types.Pointer).Elem())
		cells := ti.cells
		return func(fr *Frame) {
			fr.regs[dst] = V{p: &Obj{cells: make([]V, cells), epoch: fr.m.epoch}}
		}, false
	case *ssa.BinOp:
		return c.binop(x, dst)
	case *ssa.UnOp:
		return c.unop(x, dst)
	case *ssa.Call:
		return c.call(&x.Call, dst, x)
	case *ssa.ChangeInterface, *ssa.ChangeType:
		var a opnd
		if y, ok := x.(*ssa.ChangeType); ok {
			a = c.op(y.X)
		} else {
			a = c.op(x.(*ssa.ChangeInterface).X)
		}
		return func(fr *Frame) { fr.regs[dst] = fr.get(a) }, true
	case *ssa.Convert:
		a := c.op(x.X)
		from, to := p.typ(x.X.Type()), p.typ(x.Type())
		return func(fr *Frame) { fr.regs[dst] = fr.m.convert(from, to, fr.get(a)) }, true
	case *ssa.MultiConvert:
		a := c.op(x.X)
		from, to := p.typ(x.X.Type()), p.typ(x.Type())
		return func(fr *Frame) { fr.regs[dst] = fr.m.convert(from, to, fr.get(a)) }, true
	case *ssa.Defer:
		args := c.ops(x.Call.Args)
		fnv := opnd{}
		var meth *types.Func
		fnv = c.op(x.Call.Value)
		if x.Call.IsInvoke() {
			meth = x.Call.Method
		}
		if x.DeferStack != nil {
			return func(fr *Frame) { fr.m.unsupported("defer in range-over-func") }, false
		}
		return func(fr *Frame) {
			d := &deferred{next: fr.defers}
			for _, a := range args {
				d.args = append(d.args, fr.get(a))
			}
			fv := fr.get(fnv)
			if meth != nil {
				itf, _ := fv.p.(*Iface)
				if itf == nil {
					fr.m.rtPanic("invalid memory address or nil pointer dereference")
				}
				d.fn = fr.m.p.method(itf.ti, meth)
				d.args = append([]V{itf.v}, d.args...)
			} else {
				cl, _ := fv.p.(*Closure)
				if cl == nil {
					fr.m.rtPanic("invalid memory address or nil pointer dereference")
				}
				d.clo = cl
			}
			fr.defers = d
		}, false
	case *ssa.RunDefers:
		return func(fr *Frame) { fr.m.runDefers(fr) }, false
	case *ssa.Extract:
		a := c.op(x.Tuple)
		i := x.Index
		return func(fr *Frame) {
			fr.regs[dst] = fr.get(a).p.(*Tuple).v[i]
		}, true
	case *ssa.Field:
		a := c.op(x.X)
		fi := p.typ(x.X.Type()).fields[x.Field]
		return func(fr *Frame) { fr.regs[dst] = aggPart(fr.get(a), fi.off, fi.ti) }, true
	case *ssa.FieldAddr:
		a := c.op(x.X)
		st := p.typ(x.X.Type().Underlying().(*types.Pointer).Elem())
		off := uint64(st.fields[x.Field].off)
		return func(fr *Frame) {
			v := fr.get(a)
			switch v.p.(type) {
			case *Obj:
				v.n += off
				fr.regs[dst] = v
			case nil:
				fr.m.rtPanic("invalid memory address or nil pointer dereference")
			default:
				fr.regs[dst] = fr.m.ptrAdd(v, off)
			}
		}, true
	case *ssa.Index:
		a, b := c.op(x.X), c.op(x.Index)
		ti := p.typ(x.X.Type())
		iti := p.typ(x.Index.Type())
		return func(fr *Frame) { fr.regs[dst] = fr.m.index(ti, iti, fr.get(a), fr.get(b)) }, true
	case *ssa.IndexAddr:
		a, b := c.op(x.X), c.op(x.Index)
		ti := p.typ(x.X.Type())
		iti := p.typ(x.Index.Type())
		return func(fr *Frame) { fr.regs[dst] = fr.m.indexAddr(ti, iti, fr.get(a), fr.get(b)) }, true
	case *ssa.Lookup:
		a, b := c.op(x.X), c.op(x.Index)
		ti := p.typ(x.X.Type())
		iti := p.typ(x.Index.Type())
		if ti.kind == kString {
			return func(fr *Frame) { fr.regs[dst] = fr.m.index(ti, iti, fr.get(a), fr.get(b)) }, true
		}
		ok := x.CommaOk
		return func(fr *Frame) { fr.regs[dst] = fr.m.mapLookup(ti, fr.get(a), fr.get(b), ok) }, false
	case *ssa.MakeClosure:
		fn := p.fn(x.Fn.(*ssa.Function))
		bs := c.ops(x.Bindings)
		return func(fr *Frame) {
			binds := make([]V, len(bs))
			for i, b := range bs {
				binds[i] = fr.get(b)
			}
			fr.regs[dst] = V{p: &Closure{fn: fn, binds: binds}}
		}, false
	case *ssa.MakeInterface:
		a := c.op(x.X)
		ti := p.typ(x.X.Type())
		return func(fr *Frame) { fr.regs[dst] = V{p: &Iface{ti, fr.get(a)}} }, true
	case *ssa.MakeMap:
		return func(fr *Frame) {
			fr.regs[dst] = V{p: &Map{idx: map[any]int{}, epoch: fr.m.epoch}}
		}, false
	case *ssa.MakeSlice:
		l, k := c.op(x.Len), c.op(x.Cap)
		ti := p.typ(x.Type())
		return func(fr *Frame) {
			n := int(int64(fr.m.concInt(fr.get(l), 64)))
			cp := int(int64(fr.m.concInt(fr.get(k), 64)))
			if n < 0 || cp < n || n > 1<<26 {
				fr.m.rtPanic("makeslice: len out of range")
			}
			esz := ti.elem.cells
			o := &Obj{cells: make([]V, cp*esz), epoch: fr.m.epoch}
			fr.regs[dst] = V{p: &Slice{o, 0, n, cp, esz}}
		}, false
	case *ssa.MapUpdate:
		a, k, v := c.op(x.Map), c.op(x.Key), c.op(x.Value)
		ti := p.typ(x.Map.Type())
		return func(fr *Frame) { fr.m.mapUpdate(ti, fr.get(a), fr.get(k), fr.get(v)) }, false
	case *ssa.Next:
		a := c.op(x.Iter)
		isStr := x.IsString
		tt := x.Type().(*types.Tuple)
		kt, vt := p.typ(tt.At(1).Type()), p.typ(tt.At(2).Type())
		return func(fr *Frame) { fr.regs[dst] = fr.m.iterNext(fr.get(a), isStr, kt, vt) }, false
	case *ssa.Range:
		a := c.op(x.X)
		return func(fr *Frame) { fr.regs[dst] = fr.m.iterNew(fr.get(a)) }, false
	case *ssa.Slice:
		a := c.op(x.X)
		ti := p.typ(x.X.Type())
		var lo, hi, mx *opnd
		if x.Low != nil {
			o := c.op(x.Low)
			lo = &o
		}
		if x.High != nil {
			o := c.op(x.High)
			hi = &o
		}
		if x.Max != nil {
			o := c.op(x.Max)
			mx = &o
		}
		return func(fr *Frame) { fr.regs[dst] = fr.m.slice(fr, ti, fr.get(a), lo, hi, mx) }, true
	case *ssa.SliceToArrayPointer:
		a := c.op(x.X)
		n := p.typ(x.Type().Underlying().(*types.Pointer).Elem()).n
		return func(fr *Frame) {
			s, _ := fr.get(a).p.(*Slice)
			if s == nil {
				if n > 0 {
					fr.m.rtPanic("cannot convert slice to array pointer")
				}
				fr.regs[dst] = V{}
				return
			}
			if s.len < n {
				fr.m.rtPanic("cannot convert slice to array pointer")
			}
			fr.regs[dst] = V{n: uint64(s.off), p: s.o}
		}, false
	case *ssa.Store:
		a, v := c.op(x.Addr), c.op(x.Val)
		ti := p.typ(x.Val.Type())
		if ti.agg() {
			return func(fr *Frame) { fr.m.store(fr.get(a), fr.get(v), ti) }, false
		}
		return func(fr *Frame) {
			pt := fr.get(a)
			o, ok := pt.p.(*Obj)
			if !ok {
				fr.m.store(pt, fr.get(v), ti)
				return
			}
			if fr.m.crec {
				fr.m.acc(o, int(pt.n), 1, true)
				fr.m.escStore(o, fr.get(v))
			}
			if o.epoch != fr.m.epoch {
				fr.m.log(o, int(pt.n))
			}
			o.cells[pt.n] = fr.get(v)
		}, false
	case *ssa.TypeAssert:
		a := c.op(x.X)
		ti := p.typ(x.AssertedType)
		ok := x.CommaOk
		return func(fr *Frame) { fr.regs[dst] = fr.m.typeAssert(ti, fr.get(a), ok) }, ok
	case *ssa.Go:
		return func(fr *Frame) { fr.m.unsupported("go statement") }, false
	case *ssa.MakeChan, *ssa.Send, *ssa.Select:
		return func(fr *Frame) { fr.m.unsupported("channel operation") }, false
	}
	panic(engErr("instr %T", in))
}

func aggPart(v V, off int, ti *TypeInfo) V {
	a := v.p.(*Agg)
	if ti.agg() {
		return V{p: &Agg{append([]V(nil), a.c[off:off+ti.cells]...)}}
	}
	return a.c[off]
}

func (c *comp) unop(x *ssa.UnOp, dst int) (func(fr *Frame), bool) {
	a := c.op(x.X)
	ti := c.p.typ(x.X.Type())
	switch x.Op {
	case token.MUL:
		et := ti.elem
		if et.agg() {
			return func(fr *Frame) { fr.regs[dst] = fr.m.load(fr.get(a), et) }, true
		}
		return func(fr *Frame) {
			v := fr.get(a)
			if o, ok := v.p.(*Obj); ok {
				if fr.m.crec {
					fr.m.acc(o, int(v.n), 1, false)
				}
				fr.regs[dst] = o.cells[v.n]
				return
			}
			fr.regs[dst] = fr.m.load(v, et)
		}, true
	case token.NOT:
		return func(fr *Frame) {
			v := fr.get(a)
			if v.p == nil {
				fr.regs[dst] = V{n: v.n ^ 1}
				return
			}
			fr.regs[dst] = tv(fr.m.tc.Not(v.p.(*Term)))
		}, true
	case token.SUB:
		if ti.kind == kInt {
			return func(fr *Frame) {
				v := fr.get(a)
				if v.p == nil {
					fr.regs[dst] = V{n: -v.n & mask(ti.w)}
					return
				}
				fr.regs[dst] = tv(fr.m.tc.Neg(v.p.(*Term)))
			}, true
		}
		return func(fr *Frame) { fr.regs[dst] = fr.m.floatNeg(fr.get(a)) }, true
	case token.XOR:
		return func(fr *Frame) {
			v := fr.get(a)
			if v.p == nil {
				fr.regs[dst] = V{n: ^v.n & mask(ti.w)}
				return
			}
			t := v.p.(*Term)
			fr.regs[dst] = tv(fr.m.tc.Bit(OpXor, t, fr.m.tc.Const(mask(ti.w), ti.w)))
		}, true
	case token.ARROW:
		return func(fr *Frame) { fr.m.unsupported("channel receive") }, false
	}
	panic(engErr("unop %s", x.Op))
}

func (c *comp) binop(x *ssa.BinOp, dst int) (func(fr *Frame), bool) {
	a, b := c.op(x.X), c.op(x.Y)
	ti := c.p.typ(x.X.Type())
	yt := c.p.typ(x.Y.Type())
	op := x.Op
	slow := func(fr *Frame, va, vb V) { fr.regs[dst] = fr.m.binop(op, ti, yt, va, vb) }
	if ti.kind == kInt || ti.kind == kBool {
		w := ti.w
		m := mask(w)
		if ti.kind == kBool {
			m = 1
		}
		mk := func(f func(x, y uint64) uint64) func(fr *Frame) {
			return func(fr *Frame) {
				va, vb := fr.get(a), fr.get(b)
				if va.p == nil && vb.p == nil {
					fr.regs[dst] = V{n: f(va.n, vb.n)}
					return
				}
				slow(fr, va, vb)
			}
		}
		switch op {
		case token.ADD:
			return mk(func(x, y uint64) uint64 { return (x + y) & m }), true
		case token.SUB:
			return mk(func(x, y uint64) uint64 { return (x - y) & m }), true
		case token.MUL:
			return mk(func(x, y uint64) uint64 { return x * y & m }), true
		case token.AND:
			return mk(func(x, y uint64) uint64 { return x & y }), true
		case token.OR:
			return mk(func(x, y uint64) uint64 { return x | y }), true
		case token.XOR:
			return mk(func(x, y uint64) uint64 { return x ^ y }), true
		case token.AND_NOT:
			return mk(func(x, y uint64) uint64 { return x &^ y }), true
		case token.EQL:
			return mk(func(x, y uint64) uint64 { return b2u(x == y) }), true
		case token.NEQ:
			return mk(func(x, y uint64) uint64 { return b2u(x != y) }), true
		}
		if ti.signed {
			switch op {
			case token.LSS:
				return mk(func(x, y uint64) uint64 { return b2u(sext(x, w) < sext(y, w)) }), true
			case token.LEQ:
				return mk(func(x, y uint64) uint64 { return b2u(sext(x, w) <= sext(y, w)) }), true
			case token.GTR:
				return mk(func(x, y uint64) uint64 { return b2u(sext(x, w) > sext(y, w)) }), true
			case token.GEQ:
				return mk(func(x, y uint64) uint64 { return b2u(sext(x, w) >= sext(y, w)) }), true
			}
		} else {
			switch op {
			case token.LSS:
				return mk(func(x, y uint64) uint64 { return b2u(x < y) }), true
			case token.LEQ:
				return mk(func(x, y uint64) uint64 { return b2u(x <= y) }), true
			case token.GTR:
				return mk(func(x, y uint64) uint64 { return b2u(x > y) }), true
			case token.GEQ:
				return mk(func(x, y uint64) uint64 { return b2u(x >= y) }), true
			}
		}
	}
	return func(fr *Frame) { slow(fr, fr.get(a), fr.get(b)) }, true
}

func (c *comp) call(cc *ssa.CallCommon, dst int, in *ssa.Call) (func(fr *Frame), bool) {
	args := c.ops(cc.Args)
	p := c.p
	if cc.IsInvoke() {
		recv := c.op(cc.Value)
		meth := cc.Method
		// per-site inline cache
		var cti *TypeInfo
		var cfn *Fn
		_ = cti
		_ = cfn
		return func(fr *Frame) {
			m := fr.m
			itf, _ := fr.get(recv).p.(*Iface)
			if itf == nil {
				m.rtPanic("invalid memory address or nil pointer dereference")
			}
			fn := p.method(itf.ti, meth)
			fn.ensure()
			mark := m.sp
			regs := m.push(fn.nregs)
			regs[0] = itf.v
			for i, a := range args {
				regs[i+1] = fr.get(a)
			}
			r := m.run(fn, regs, fr)
			m.pop(mark)
			fr.regs[dst] = r
		}, false
	}
	switch f := cc.Value.(type) {
	case *ssa.Function:
		fn := p.fn(f)
		return func(fr *Frame) {
			m := fr.m
			fn.ensure()
			mark := m.sp
			regs := m.push(fn.nregs)
			for i, a := range args {
				regs[i] = fr.get(a)
			}
			r := m.run(fn, regs, fr)
			m.pop(mark)
			fr.regs[dst] = r
		}, pureCall[fn.name]
	case *ssa.Builtin:
		var tis []*TypeInfo
		for _, a := range cc.Args {
			tis = append(tis, p.typ(a.Type()))
		}
		var rt *TypeInfo
		if dst >= 0 {
			rt = p.typ(in.Type())
		}
		name := f.Name()
		pure := name == "len" || name == "cap" || name == "min" || name == "max"
		return func(fr *Frame) {
			var buf [4]V
			as := buf[:0]
			for _, a := range args {
				as = append(as, fr.get(a))
			}
			fr.regs[dst] = fr.m.builtin(fr, name, as, tis, rt)
		}, pure
	}
	fv := c.op(cc.Value)
	return func(fr *Frame) {
		m := fr.m
		cl, _ := fr.get(fv).p.(*Closure)
		if cl == nil {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		as := make([]V, len(args))
		for i, a := range args {
			as[i] = fr.get(a)
		}
		fr.regs[dst] = m.callClosure(cl, as, fr)
	}, false
}
