package main

import (
	"fmt"
	"go/types"
	"sort"
	"strconv"
	"strings"

	"golang.org/x/tools/go/ssa"
)

const antlrPkg = "github.com/antlr/antlr4/runtime/Go/antlr"
const repoPkg = "github.com/ProtonMail/go-rfc5322"
const parserPkg = repoPkg + "/parser"

// tokset is a set of token types; bit 0 is EOF (-1), bit t+1 is type t.
type tokset [4]uint64

func (s *tokset) add(t int)      { i := uint(t + 1); s[i>>6] |= 1 << (i & 63) }
func (s *tokset) has(t int) bool { i := uint(t + 1); return i < 256 && s[i>>6]>>(i&63)&1 != 0 }

type ntrans struct {
	eps    bool
	rule   bool
	target int32
	follow int32
	set    *tokset
	ivs    []Iv
	eof    bool
}

type nstate struct {
	typ   int
	rule  int
	trans []ntrans
}

// natn is one deserialised ATN in native form.
type natn struct {
	grammar   int
	maxTok    int
	states    []nstate
	ruleStart []int32
	ruleStop  []int32
	ruleTok   []int
	decisions []int32
	modes     []int32
	nactions  int
	bad       string

	// lexer only
	single bool
	toks   []lexTok

	cls    []int // token type+1 -> class
	clsRep []int // class -> a token type

	pred predictor
}

type lexTok struct {
	typ int
	ivs []Iv
}

type outcome struct {
	alt int   // > 0: resolved
	set int32 // >= 0: continue; -1: dead
}

type atnState struct {
	byObj   map[*Obj]*natn
	ctxID   map[*Obj]int32
	lexTerm map[*Term]*Term
}

func newATNState() *atnState {
	return &atnState{byObj: map[*Obj]*natn{}, ctxID: map[*Obj]int32{}, lexTerm: map[*Term]*Term{}}
}

func (a *atnState) beginPath() {
	clear(a.ctxID)
	clear(a.lexTerm)
}

// sharedATN returns the native form of a serialised ATN.
func (p *Prog) sharedATN(data []int) *natn {
	var sb strings.Builder
	for _, x := range data {
		sb.WriteString(strconv.Itoa(x))
		sb.WriteByte(' ')
	}
	p.atnMu.Lock()
	defer p.atnMu.Unlock()
	if n := p.atns[sb.String()]; n != nil {
		return n
	}
	n := parseATN(data)
	if p.atns == nil {
		p.atns = map[string]*natn{}
	}
	p.atns[sb.String()] = n
	return n
}

// classes groups the token types no transition tells apart.
func (n *natn) classes() {
	idx := map[string]int{}
	for t := -1; t <= n.maxTok; t++ {
		var sig []byte
		for i := range n.states {
			for j := range n.states[i].trans {
				if s := n.states[i].trans[j].set; s != nil {
					sig = append(sig, byte(b2u(s.has(t))))
				}
			}
		}
		k, ok := idx[string(sig)]
		if !ok {
			k = len(n.clsRep)
			idx[string(sig)] = k
			n.clsRep = append(n.clsRep, t)
		}
		n.cls = append(n.cls, k)
	}
}

func parseATN(data []int) (n *natn) {
	n = &natn{}
	defer func() {
		if x := recover(); x != nil {
			n.bad = fmt.Sprint("cannot read the ATN: ", x)
		}
	}()
	pos := 0
	rd := func() int { x := data[pos]; pos++; return x }
	if v := rd(); v != 4 {
		n.bad = "unknown ATN version"
		return
	}
	n.grammar = rd()
	n.maxTok = rd()
	if n.maxTok > 250 {
		n.bad = "too many token types"
		return
	}
	ns := rd()
	for i := 0; i < ns; i++ {
		t := rd()
		if t == 0 {
			n.states = append(n.states, nstate{})
			continue
		}
		s := nstate{typ: t, rule: rd()}
		switch t {
		case 12, 3, 4, 5:
			rd()
		}
		n.states = append(n.states, s)
	}
	for i := rd(); i > 0; i-- {
		n.states[rd()].typ |= 0
		n.bad = "non-greedy decision"
	}
	for i := rd(); i > 0; i-- {
		rd()
		n.bad = "precedence rule"
	}
	nr := rd()
	for i := 0; i < nr; i++ {
		n.ruleStart = append(n.ruleStart, int32(rd()))
		if n.grammar == 0 {
			n.ruleTok = append(n.ruleTok, rd())
		}
	}
	n.ruleStop = make([]int32, nr)
	for i, s := range n.states {
		if s.typ == 7 {
			n.ruleStop[s.rule] = int32(i)
		}
	}
	for i := rd(); i > 0; i-- {
		n.modes = append(n.modes, int32(rd()))
	}
	type set struct {
		ivs []Iv
		eof bool
	}
	var sets []set
	for i := rd(); i > 0; i-- {
		k := rd()
		var s set
		s.eof = rd() != 0
		for j := 0; j < k; j++ {
			lo := rd()
			hi := rd()
			s.ivs = append(s.ivs, Iv{uint64(lo), uint64(hi)})
		}
		s.ivs = ivNorm(s.ivs)
		sets = append(sets, s)
	}
	for i := rd(); i > 0; i-- {
		src, trg, typ, a1, a2, a3 := rd(), rd(), rd(), rd(), rd(), rd()
		t := ntrans{target: int32(trg)}
		switch typ {
		case 1:
			t.eps = true
		case 2:
			lo := a1
			if a3 != 0 {
				t.eof = true
				lo = 0
				t.ivs = []Iv{{1, uint64(a2)}}
				_ = lo
			} else {
				t.ivs = []Iv{{uint64(lo), uint64(a2)}}
			}
		case 3:
			t.rule = true
			t.target = int32(a1)
			t.follow = int32(trg)
		case 5:
			if a3 != 0 {
				t.eof = true
			} else {
				t.ivs = []Iv{{uint64(a1), uint64(a1)}}
			}
		case 6:
			t.eps = true
		case 7:
			t.ivs, t.eof = sets[a1].ivs, sets[a1].eof
		default:
			n.bad = fmt.Sprintf("transition type %d", typ)
		}
		if n.grammar == 1 && !t.eps && !t.rule {
			t.set = &tokset{}
			if t.eof {
				t.set.add(-1)
			}
			for _, iv := range t.ivs {
				for x := iv.lo; x <= iv.hi; x++ {
					t.set.add(int(x))
				}
			}
		}
		n.states[src].trans = append(n.states[src].trans, t)
	}
	for i := rd(); i > 0; i-- {
		n.decisions = append(n.decisions, int32(rd()))
	}
	if n.grammar == 0 {
		n.nactions = rd()
		n.lexer()
	}
	if n.grammar == 1 {
		n.classes()
	}
	n.initPredictor()
	return
}

// lexer checks that every rule is one character set.
func (n *natn) lexer() {
	if n.nactions > 0 || len(n.modes) != 1 || n.bad != "" {
		return
	}
	for _, tr := range n.states[n.modes[0]].trans {
		if !tr.eps && !tr.rule {
			return
		}
		rs := tr.target
		r := n.states[rs].rule
		// epsilon closure from the rule start
		var ivs []Iv
		seen := map[int32]bool{}
		ok := true
		var walk func(s int32, used bool)
		walk = func(s int32, used bool) {
			k := s<<1 | int32(b2u(used))
			if seen[k] || !ok {
				return
			}
			seen[k] = true
			st := n.states[s]
			if st.typ == 7 {
				if !used {
					ok = false
				}
				return
			}
			for _, t := range st.trans {
				switch {
				case t.rule:
					ok = false
				case t.eps:
					walk(t.target, used)
				default:
					if used || t.eof {
						ok = false
						return
					}
					ivs = append(ivs, t.ivs...)
					walk(t.target, true)
				}
			}
		}
		walk(rs, false)
		if !ok {
			return
		}
		n.toks = append(n.toks, lexTok{n.ruleTok[r], ivNorm(ivs)})
	}
	n.single = true
}

// --- access to interpreted ANTLR objects ---------------------------------------

// fieldOff finds a (possibly unexported) direct field of a struct type.
func (p *Prog) fieldOff(ti *TypeInfo, name string) int {
	st := ti.u.(*types.Struct)
	for i := 0; i < st.NumFields(); i++ {
		if st.Field(i).Name() == name {
			return ti.fields[i].off
		}
	}
	panic(engErr("no field %s in %s", name, ti.str))
}

func (p *Prog) ptrTo(t types.Type) *TypeInfo { return p.typ(types.NewPointer(t)) }

func (p *Prog) named(pkg, name string) *TypeInfo {
	return p.typ(p.pkgs[pkg].Type(name).Type())
}

func (m *M) field(ptr V, ti *TypeInfo, name string) V {
	o, ok := ptr.p.(*Obj)
	if !ok {
		panic(engErr("field %s of %T", name, ptr.p))
	}
	return o.cells[int(ptr.n)+m.p.fieldOff(ti, name)]
}

func (m *M) invoke(v V, name string, args ...V) V {
	itf, _ := v.p.(*Iface)
	if itf != nil && itf.ti == m.p.tPoison {
		m.abort("poison", "")
	}
	if itf == nil {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	fn := m.p.namedMethod(itf.ti, name)
	if fn == nil {
		panic(engErr("no method %s on %s", name, itf.ti.str))
	}
	return m.callFn(fn, append([]V{itf.v}, args...)...)
}

type nmKey struct {
	ti   *TypeInfo
	name string
}

func (p *Prog) namedMethod(ti *TypeInfo, name string) *Fn {
	k := nmKey{ti, name}
	if f, ok := p.nmCache.Load(k); ok {
		return f.(*Fn)
	}
	f := p.methodByName(ti, name)
	p.nmCache.Store(k, f)
	return f
}

func antlrInit() {
	A := antlrPkg
	fb := func(name string, why string, f intrFn) {
		intrinsics[name] = f
		intrFallback[name] = true
		stubbed[name] = why
	}
	fb("(*"+A+".ATNDeserializer).Deserialize", "runs the real body and also keeps the ATN natively", func(m *M, fr *Frame, a []V) V {
		fn := m.p.member(A, "ATNDeserializer", "Deserialize")
		var data []int
		for _, c := range sliceCells(a[1]) {
			if c.p != nil {
				m.unsupported("symbolic ATN")
			}
			data = append(data, int(sext(c.n, 32)))
		}
		r := m.callBody(fn, a, fr)
		if o, ok := r.p.(*Obj); ok {
			m.atn.byObj[o] = m.p.sharedATN(data)
		}
		return r
	})
	fb("(*"+A+".ATN).NextTokensNoContext", "cached per ATN state", func(m *M, fr *Frame, a []V) V {
		fn := m.p.member(A, "ATN", "NextTokensNoContext")
		ep := m.epoch
		m.epoch = 0
		sp := m.spec
		m.spec = false
		if m.crec {
			m.conc.off++
		}
		r := m.callBody(fn, a, fr)
		if m.crec {
			m.conc.off--
		}
		m.epoch, m.spec = ep, sp
		return r
	})
	fb("(*"+A+".IntervalSet).contains", "membership of a symbolic token as one condition", func(m *M, fr *Frame, a []V) V {
		t, ok := a[1].p.(*Term)
		if !ok {
			return m.callBody(m.p.member(A, "IntervalSet", "contains"), a, fr)
		}
		tc := m.tc
		is := m.p.named(A, "IntervalSet")
		iv := m.p.named(A, "Interval")
		r := tc.tFalse
		for _, c := range sliceCells(m.field(a[0], is, "intervals")) {
			lo := m.term(m.field(c, iv, "Start"), 64)
			hi := m.term(m.field(c, iv, "Stop"), 64)
			r = tc.Or(r, tc.And(tc.Not(tc.Slt(t, lo)), tc.Slt(t, hi)))
		}
		return tv(r)
	})
	stub := func(name, why string) {
		intrinsics[name] = func(m *M, fr *Frame, a []V) V { return vstr(opaque) }
		stubbed[name] = why
	}
	stub("(*"+A+".DefaultErrorStrategy).escapeWSAndQuote", "text of error messages is opaque")
	stub("(*"+A+".IntervalSet).StringVerbose", "text of error messages is opaque")
	fb("(*"+A+".BaseParser).NotifyErrorListeners", "real body; may end the rule afterwards", func(m *M, fr *Frame, a []V) V {
		r := m.callBody(m.p.member(A, "BaseParser", "NotifyErrorListeners"), a, fr)
		if m.cutOn() {
			panic(cutSignal{})
		}
		return r
	})
	fb("(*"+A+".ParserATNSimulator).AdaptivePredict", "full-context LL prediction on the deserialised ATN", adaptivePredict)
	fb("(*"+A+".LexerATNSimulator).Match", "one-character token rules of the deserialised lexer ATN", lexerMatch)
}

// member finds the method of a named type's pointer.
func (p *Prog) member(pkg, typ, meth string) *Fn {
	k := pkg + "." + typ + "." + meth
	if f, ok := p.memCache.Load(k); ok {
		return f.(*Fn)
	}
	t := types.NewPointer(p.pkgs[pkg].Type(typ).Type())
	sel := p.ssa.MethodSets.MethodSet(t)
	for i := 0; i < sel.Len(); i++ {
		if sel.At(i).Obj().Name() == meth {
			fn := p.fn(p.ssa.MethodValue(sel.At(i)))
			p.memCache.Store(k, fn)
			return fn
		}
	}
	panic(engErr("no method %s", k))
}

// callBody runs the real body of an intrinsic.
func (m *M) callBody(fn *Fn, a []V, caller *Frame) V {
	fn.ensure()
	mark := m.sp
	regs := m.push(fn.nregs)
	copy(regs, a)
	r := m.runBody(fn, regs, caller)
	m.pop(mark)
	return r
}

type cutSignal struct{}

func (m *M) cutOn() bool {
	return m.epoch > 0 && m.path.opts["cut"] && !m.curTask.noCut && !m.noCutPath && m.ruleDepth > 0
}

// contextID interns the invocation stack of a rule context.
func (m *M) contextID(n *natn, ctx V) int32 {
	itf, _ := ctx.p.(*Iface)
	if itf == nil {
		return 0
	}
	o, ok := itf.v.p.(*Obj)
	if !ok {
		return 0
	}
	if id, ok := m.atn.ctxID[o]; ok {
		return id
	}
	parent := m.invoke(ctx, "GetParent")
	var id int32
	if parent.p != nil {
		pid := m.contextID(n, parent)
		is := int64(m.invoke(ctx, "GetInvokingState").n)
		if is < 0 || int(is) >= len(n.states) || len(n.states[is].trans) == 0 {
			m.unsupported("rule context with invoking state %d", is)
		}
		id = n.stack(n.states[is].trans[0].follow, pid)
	}
	m.atn.ctxID[o] = id
	return id
}

func adaptivePredict(m *M, fr *Frame, a []V) V {
	p := m.p
	sim := p.named(antlrPkg, "ParserATNSimulator")
	base := p.named(antlrPkg, "BaseATNSimulator")
	atnObj, _ := m.field(m.field(a[0], sim, "BaseATNSimulator"), base, "atn").p.(*Obj)
	n := m.atn.byObj[atnObj]
	if n == nil || n.bad != "" || a[2].p != nil {
		m.path.real = true
		return m.callBody(p.member(antlrPkg, "ParserATNSimulator", "AdaptivePredict"), a, fr)
	}
	input, outer := a[1], a[3]
	dec := int(a[2].n)
	set := n.start(dec, m.contextID(n, outer))
	for k := 1; ; k++ {
		t := m.invoke(input, "LA", vint(k))
		var o outcome
		if t.p == nil {
			o = n.step(set, int(int64(t.n)))
		} else {
			o = m.partition(n, set, t.p.(*Term))
		}
		switch {
		case o.alt > 0:
			return vint(o.alt)
		case o.set < 0:
			if s := n.syn(set); s > 0 {
				return vint(s)
			}
			start := m.invoke(input, "Index")
			fn := p.member(antlrPkg, "ParserATNSimulator", "noViableAlt")
			e := m.callFn(fn, a[0], input, outer, V{}, start)
			ti := p.ptrTo(p.pkgs[antlrPkg].Type("NoViableAltException").Type())
			panic(targetPanic{V{p: &Iface{ti, e}}})
		}
		set = o.set
	}
}

// tokValues lists the token types a symbolic token may have.
func (m *M) tokValues(n *natn, t *Term) (vals []int, conds []*Term) {
	tc := m.tc
	if t.op == OpPW {
		by := map[uint64][]Iv{}
		var order []uint64
		for _, p := range tc.piecesOn(t, tc.dom[t.v.id]) {
			if _, ok := by[p.val]; !ok {
				order = append(order, p.val)
			}
			by[p.val] = append(by[p.val], Iv{p.lo, p.hi})
		}
		if order != nil {
			for _, v := range order {
				vals = append(vals, int(int64(v)))
				conds = append(conds, tc.In(t.v, ivNorm(by[v])))
			}
			return
		}
	}
	for v := -1; v <= n.maxTok; v++ {
		c := tc.Eq(t, tc.Const(uint64(int64(v)), 64))
		if m.quick(c) != -1 {
			vals = append(vals, v)
			conds = append(conds, c)
		}
	}
	return
}

func (m *M) partition(n *natn, set int32, t *Term) outcome {
	type grp struct {
		o   outcome
		c   *Term
		ivs []Iv
	}
	var gs []grp
	idx := map[outcome]int{}
	at := func(o outcome) *grp {
		k, ok := idx[o]
		if !ok {
			k = len(gs)
			idx[o] = k
			gs = append(gs, grp{o, m.tc.tFalse, nil})
		}
		return &gs[k]
	}
	if t.op == OpPW {
		for _, p := range m.tc.piecesOn(t, m.tc.dom[t.v.id]) {
			g := at(n.step(set, int(int64(p.val))))
			g.ivs = append(g.ivs, Iv{p.lo, p.hi})
		}
		if len(gs) == 1 {
			return gs[0].o
		}
		for i := range gs {
			gs[i].c = m.tc.In(t.v, ivNorm(gs[i].ivs))
		}
	} else {
		vals, conds := m.tokValues(n, t)
		for i, v := range vals {
			g := at(n.step(set, v))
			g.c = m.tc.Or(g.c, conds[i])
		}
		if len(gs) == 1 {
			return gs[0].o
		}
	}
	cs := make([]*Term, len(gs))
	for i := range gs {
		cs[i] = gs[i].c
	}
	return gs[m.decide(cs, nil)].o
}

func lexerMatch(m *M, fr *Frame, a []V) V {
	p := m.p
	sim := p.named(antlrPkg, "LexerATNSimulator")
	base := p.named(antlrPkg, "BaseATNSimulator")
	atnObj, _ := m.field(m.field(a[0], sim, "BaseATNSimulator"), base, "atn").p.(*Obj)
	n := m.atn.byObj[atnObj]
	if n == nil || n.bad != "" || !n.single {
		m.path.real = true
		return m.callBody(p.member(antlrPkg, "LexerATNSimulator", "Match"), a, fr)
	}
	input := a[1]
	idx := m.invoke(input, "Index")
	m.cellStore(V{n: a[0].n + uint64(p.fieldOff(sim, "startIndex")), p: a[0].p}, idx)
	t := m.invoke(input, "LA", vint(1))
	noviable := func() V {
		fn := p.fn(p.pkgs[antlrPkg].Func("NewLexerNoViableAltException"))
		e := m.callFn(fn, m.field(a[0], sim, "recog"), input, idx, V{})
		ti := p.ptrTo(p.pkgs[antlrPkg].Type("LexerNoViableAltException").Type())
		panic(targetPanic{V{p: &Iface{ti, e}}})
	}
	if t.p == nil {
		c := int64(t.n)
		if c == -1 {
			return V{n: t.n}
		}
		for _, tk := range n.toks {
			if ivHas(tk.ivs, uint64(c)) {
				m.invoke(input, "Consume")
				return vint(tk.typ)
			}
		}
		return noviable()
	}
	ct := t.p.(*Term)
	r, ok := m.atn.lexTerm[ct]
	if !ok {
		r = m.lexType(n, ct)
		m.atn.lexTerm[ct] = r
	}
	none := m.tc.Eq(r, m.tc.Const(0, 64))
	if none != m.tc.tFalse && m.branch(none) {
		return noviable()
	}
	m.invoke(input, "Consume")
	return tv(r)
}

// lexType is the token type of a symbolic character; 0 means none.
func (m *M) lexType(n *natn, ct *Term) *Term {
	tc := m.tc
	b := ct
	for b.op == OpSExt || b.op == OpZExt {
		b = b.a
	}
	if b.op == OpVar && b.w <= 32 {
		var pcs []Piece
		for _, iv := range b.v.init {
			rest := []Iv{iv}
			for _, tk := range n.toks {
				for _, x := range ivIntersect(rest, tk.ivs) {
					pcs = append(pcs, Piece{x.lo, x.hi, uint64(tk.typ)})
				}
				rest = ivMinus(rest, tk.ivs)
			}
			for _, x := range rest {
				pcs = append(pcs, Piece{x.lo, x.hi, 0})
			}
		}
		sort.Slice(pcs, func(i, j int) bool { return pcs[i].lo < pcs[j].lo })
		out := pcs[:0]
		for _, p := range pcs {
			if k := len(out); k > 0 && out[k-1].val == p.val && out[k-1].hi+1 == p.lo {
				out[k-1].hi = p.hi
				continue
			}
			out = append(out, p)
		}
		return tc.mkPW(b.v, out, 64)
	}
	if !ct.multi && ct.v != nil && (ct.v.n <= 4096 || ct.v.tab) {
		return tc.mapPWOr(m, ct, 64, func(x uint64) uint64 {
			for _, tk := range n.toks {
				if ivHas(tk.ivs, x) {
					return uint64(tk.typ)
				}
			}
			return 0
		})
	}
	r := tc.Const(0, 64)
	for i := len(n.toks) - 1; i >= 0; i-- {
		tk := n.toks[i]
		in := tc.tFalse
		for _, iv := range tk.ivs {
			in = tc.Or(in, tc.And(tc.Not(tc.Slt(ct, tc.Const(iv.lo, 64))), tc.Not(tc.Slt(tc.Const(iv.hi, 64), ct))))
		}
		r = tc.Ite(in, tc.Const(uint64(tk.typ), 64), r)
	}
	return r
}

// --- rules: summaries and the cut ----------------------------------------------

// isRuleFn tells whether fn is a generated grammar rule method.
func isRuleFn(f *ssa.Function) bool {
	if f.Pkg == nil || f.Pkg.Pkg.Path() != parserPkg {
		return false
	}
	r := f.Signature.Recv()
	if r == nil || f.Signature.Params().Len() != 0 || f.Signature.Results().Len() != 1 || f.Synthetic != "" {
		return false
	}
	if !strings.HasSuffix(types.TypeString(r.Type(), nil), "Parser") {
		return false
	}
	n, ok := f.Signature.Results().At(0).Type().(*types.Named)
	return ok && strings.HasPrefix(n.Obj().Name(), "I") && strings.HasSuffix(n.Obj().Name(), "Context")
}

// ruleSum: the rule consumes exactly one token of the set.
type ruleSum struct{ toks tokset }

type poison struct{}

func (m *M) runRule(fn *Fn, regs []V, caller *Frame) (r V) {
	if m.ruleDepth == 0 {
		depth, sp := m.depth, m.sp
		defer func() {
			m.ruleDepth = 0
			if x := recover(); x != nil {
				if _, ok := x.(cutSignal); ok {
					m.depth, m.sp = depth, sp
					m.path.cut = true
					r = V{p: &Iface{m.p.tPoison, V{}}}
					return
				}
				panic(x)
			}
		}()
	}
	m.ruleDepth++
	if sum := m.p.sums[fn]; sum != nil && m.epoch > 0 && !m.noSum {
		if done, v := m.summarised(fn, sum, regs, caller); done {
			m.ruleDepth--
			return v
		}
	}
	r = m.runBody(fn, regs, caller)
	m.ruleDepth--
	return r
}

// curToken returns the address of the type cell of the current token.
func (m *M) tokenCell(parser V) (*Obj, int) {
	p := m.p
	rp := p.typ(p.pkgs[parserPkg].Type("RFC5322Parser").Type())
	bp := m.field(parser, rp, "BaseParser")
	in := m.field(bp, p.named(antlrPkg, "BaseParser"), "input")
	tok := m.invoke(in, "LT", vint(1))
	itf, _ := tok.p.(*Iface)
	if itf == nil || itf.ti.str != "*"+antlrPkg+".CommonToken" {
		return nil, 0
	}
	bt := m.field(itf.v, p.named(antlrPkg, "CommonToken"), "BaseToken")
	o := bt.p.(*Obj)
	return o, int(bt.n) + p.fieldOff(p.named(antlrPkg, "BaseToken"), "tokenType")
}

func (m *M) summarised(fn *Fn, sum *ruleSum, regs []V, caller *Frame) (bool, V) {
	o, off := m.tokenCell(regs[0])
	if o == nil {
		return false, V{}
	}
	tt := o.cells[off]
	if tt.p == nil {
		return false, V{}
	}
	var n *natn
	for _, x := range m.atn.byObj {
		if x.grammar == 1 {
			n = x
		}
	}
	vals, conds := m.tokValues(n, tt.p.(*Term))
	in, out := m.tc.tFalse, m.tc.tFalse
	for i, v := range vals {
		if sum.toks.has(v) {
			in = m.tc.Or(in, conds[i])
		} else {
			out = m.tc.Or(out, conds[i])
		}
	}
	if m.decide([]*Term{in, out}, nil) == 1 {
		return false, V{}
	}
	vals, _ = m.tokValues(n, tt.p.(*Term))
	set := func(v V) {
		if o.epoch != m.epoch {
			m.log(o, off)
		}
		o.cells[off] = v
	}
	rep := -2
	for _, v := range vals {
		if sum.toks.has(v) {
			rep = v
			break
		}
	}
	if rep == -2 {
		m.abort("unsupported", "no token left for a rule summary")
	}
	set(vint(rep))
	r := m.runBody(fn, regs, caller)
	set(tt)
	m.path.nsum++
	return true, r
}

// buildSummaries finds the rules that consume exactly one token and on whose
// inner structure no code outside the parser package depends.
func (m *M) buildSummaries() {
	p := m.p
	p.sums = map[*Fn]*ruleSum{}
	pp := p.pkgs[parserPkg]
	if pp == nil {
		return
	}
	var pn, ln *natn
	for _, x := range m.atn.byObj {
		if x.bad == "" && x.grammar == 1 {
			pn = x
		}
		if x.bad == "" && x.grammar == 0 && x.single {
			ln = x
		}
	}
	if pn == nil || ln == nil {
		return
	}
	pt := types.NewPointer(pp.Type("RFC5322Parser").Type())
	rules := map[string]*Fn{}
	ms := p.ssa.MethodSets.MethodSet(pt)
	for i := 0; i < ms.Len(); i++ {
		f := p.ssa.MethodValue(ms.At(i))
		if f != nil && isRuleFn(f) {
			rules[f.Name()] = p.fn(f)
		}
	}
	// what the users of the parser look at
	used := map[string]bool{}  // inspected beyond their text
	heard := map[string]bool{} // entered or left by a listener
	all := false
	for path, pk := range p.pkgs {
		if !strings.HasPrefix(path, repoPkg) || path == parserPkg {
			continue
		}
		m.scanUse(pk, rules, used, heard, &all)
	}
	if all {
		return
	}
	// rule index by name
	idx := map[string]int{}
	for i, v := range sliceCells(m.ruleNames(pp)) {
		s, _ := strConc(v)
		idx[strings.ToUpper(s[:1])+s[1:]] = i
	}
	callees := map[string][]string{}
	predicts := map[string]bool{}
	for name, fn := range rules {
		var scan func(f *ssa.Function)
		scan = func(f *ssa.Function) {
			for _, b := range f.Blocks {
				for _, in := range b.Instrs {
					c, ok := in.(ssa.CallInstruction)
					if !ok {
						continue
					}
					if s := c.Common().StaticCallee(); s != nil {
						if isRuleFn(s) {
							callees[name] = append(callees[name], s.Name())
						}
						if s.Name() == "AdaptivePredict" {
							predicts[name] = true
						}
					}
				}
			}
			for _, g := range f.AnonFuncs {
				scan(g)
			}
		}
		scan(fn.f)
	}
	for name, fn := range rules {
		ok := true
		seen := map[string]bool{}
		var visit func(s string)
		visit = func(s string) {
			if seen[s] {
				return
			}
			seen[s] = true
			if used[s] || predicts[s] || heard[s] && s != name {
				ok = false
			}
			for _, c := range callees[s] {
				visit(c)
			}
		}
		visit(name)
		ri, has := idx[name]
		if !ok || !has || !pn.oneToken(ri) {
			continue
		}
		sum := &ruleSum{}
		cnt := 0
		for _, tk := range ln.toks {
			if m.acceptsOne(pp, fn, rune(tk.ivs[0].lo)) {
				sum.toks.add(tk.typ)
				cnt++
			}
		}
		if cnt > 1 {
			if m.ex.debug {
				fmt.Println("summary", name, cnt)
			}
			p.sums[fn] = sum
		}
	}
}

func (m *M) ruleNames(pp *ssa.Package) V {
	g := pp.Var("rfc5322parserParserStaticData")
	if g == nil {
		return V{}
	}
	o := m.global(m.p.globalID(g))
	ti := m.p.typ(g.Type().Underlying().(*types.Pointer).Elem())
	return o.cells[m.p.fieldOff(ti, "ruleNames")]
}

// oneToken: every way through the rule consumes exactly one token.
func (n *natn) oneToken(r int) bool {
	type key struct {
		s    int32
		used bool
		ctx  int32
	}
	seen := map[key]bool{}
	ok := true
	var walk func(k key)
	walk = func(k key) {
		if seen[k] || !ok {
			return
		}
		seen[k] = true
		if len(seen) > 20000 {
			ok = false
			return
		}
		st := n.states[k.s]
		if st.typ == 7 {
			if k.ctx == 0 {
				if !k.used {
					ok = false
				}
				return
			}
			s := n.frame(k.ctx)
			walk(key{s.ret, k.used, s.parent})
			return
		}
		for _, t := range st.trans {
			switch {
			case t.rule:
				walk(key{t.target, k.used, n.stack(t.follow, k.ctx)})
			case t.eps:
				walk(key{t.target, k.used, k.ctx})
			default:
				if k.used || t.eof {
					ok = false
					return
				}
				walk(key{t.target, true, k.ctx})
			}
		}
	}
	walk(key{n.ruleStart[r], false, 0})
	return ok
}

// acceptsOne runs the rule on one concrete character.
func (m *M) acceptsOne(pp *ssa.Package, fn *Fn, c rune) (ok bool) {
	defer func() {
		if x := recover(); x != nil {
			ok = false
			m.depth, m.sp, m.ruleDepth = 0, 0, 0
		}
	}()
	p := m.p
	ap := p.pkgs[antlrPkg]
	call := func(pk *ssa.Package, name string, a ...V) V { return m.callFn(p.fn(pk.Func(name)), a...) }
	is := call(ap, "NewInputStream", vstr(string(c)))
	iface := func(pkg, typ string, v V) V { return V{p: &Iface{p.ptrTo(p.pkgs[pkg].Type(typ).Type()), v}} }
	lx := call(pp, "NewRFC5322Lexer", iface(antlrPkg, "InputStream", is))
	ts := call(ap, "NewCommonTokenStream", iface(parserPkg, "RFC5322Lexer", lx), V{})
	tsi := iface(antlrPkg, "CommonTokenStream", ts)
	ps := call(pp, "NewRFC5322Parser", tsi)
	psi := iface(parserPkg, "RFC5322Parser", ps)
	m.invoke(psi, "RemoveErrorListeners")
	m.callFn(fn, ps)
	if m.invoke(tsi, "Index").n != 1 {
		return false
	}
	bp := m.field(ps, p.named(parserPkg, "RFC5322Parser"), "BaseParser")
	return m.field(bp, p.named(antlrPkg, "BaseParser"), "_SyntaxErrors").n == 0
}

// scanUse records the rules whose contexts are inspected, or listened to, by a
// package.
func (m *M) scanUse(pk *ssa.Package, rules map[string]*Fn, used, heard map[string]bool, all *bool) {
	ruleOf := func(t types.Type) string {
		s := t.String()
		s = strings.TrimPrefix(s, "*")
		if !strings.HasPrefix(s, parserPkg+".") || !strings.HasSuffix(s, "Context") {
			return ""
		}
		s = strings.TrimSuffix(strings.TrimPrefix(s, parserPkg+"."), "Context")
		if rules[s] != nil {
			return s
		}
		s = strings.TrimPrefix(s, "I")
		if rules[s] != nil {
			return s
		}
		return ""
	}
	fns := map[*ssa.Function]bool{}
	for _, mem := range pk.Members {
		switch x := mem.(type) {
		case *ssa.Function:
			fns[x] = true
		case *ssa.Type:
			nt, ok := x.Type().(*types.Named)
			if !ok {
				continue
			}
			for i := 0; i < nt.NumMethods(); i++ {
				f := pk.Prog.FuncValue(nt.Method(i))
				if f == nil {
					continue
				}
				fns[f] = true
				name := f.Name()
				switch name {
				case "VisitTerminal", "EnterEveryRule", "ExitEveryRule", "VisitErrorNode":
					*all = true
				}
				for _, pre := range []string{"Enter", "Exit"} {
					if strings.HasPrefix(name, pre) && rules[name[len(pre):]] != nil {
						heard[name[len(pre):]] = true
					}
				}
			}
		}
	}
	var scan func(f *ssa.Function)
	scan = func(f *ssa.Function) {
		for _, b := range f.Blocks {
			for _, in := range b.Instrs {
				switch x := in.(type) {
				case ssa.CallInstruction:
					c := x.Common()
					if c.IsInvoke() {
						if r := ruleOf(c.Value.Type()); r != "" && c.Method.Name() != "GetText" {
							used[r] = true
						}
						switch c.Method.Name() {
						case "GetChild", "GetChildren", "GetChildCount", "GetTokenType", "GetSymbol", "GetPayload":
							*all = true
						}
					} else if s := c.StaticCallee(); s != nil && s.Signature.Recv() != nil {
						if r := ruleOf(s.Signature.Recv().Type()); r != "" && s.Name() != "GetText" {
							used[r] = true
						}
						switch s.Name() {
						case "GetChild", "GetChildren", "GetChildCount", "GetTokenType", "GetSymbol", "GetPayload":
							*all = true
						}
					}
				case *ssa.TypeAssert:
					if r := ruleOf(x.AssertedType); r != "" {
						used[r] = true
					}
				}
			}
		}
		for _, g := range f.AnonFuncs {
			scan(g)
		}
	}
	for f := range fns {
		scan(f)
	}
}
