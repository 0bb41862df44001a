package main

import (
	"fmt"
	"go/constant"
	"go/types"
	"os"
	"sync"
	"sync/atomic"

	"golang.org/x/tools/go/packages"
	"golang.org/x/tools/go/ssa"
	"golang.org/x/tools/go/ssa/ssautil"
	"golang.org/x/tools/go/types/typeutil"
)

// Prog is the loaded program, shared by all workers.
type Prog struct {
	ssa     *ssa.Program
	pkgs    map[string]*ssa.Package
	initOrd []*ssa.Package

	mu      sync.Mutex
	types   typeutil.Map
	ntypes  int
	fns     map[*ssa.Function]*Fn
	globals map[*ssa.Global]int
	glist   []*ssa.Global
	sizes   types.Sizes

	methCache sync.Map // methKey -> *Fn
	implCache sync.Map // implKey -> bool
	nmCache   sync.Map
	memCache  sync.Map
	sums      map[*Fn]*ruleSum
	atnMu     sync.Mutex
	atns      map[string]*natn
	tPoison   *TypeInfo

	tString, tErr *TypeInfo
	tRune, tByte  *TypeInfo
	tRTErr        *TypeInfo // runtime.errorString
}

func loadProg(dir string, patterns ...string) (*Prog, error) {
	cfg := &packages.Config{
		Mode: packages.LoadAllSyntax,
		Dir:  dir,
		Env: append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off",
			"CGO_ENABLED=0", "GOTOOLCHAIN=local"),
	}
	initial, err := packages.Load(cfg, patterns...)
	if err != nil {
		return nil, err
	}
	var errs []string
	packages.Visit(initial, nil, func(p *packages.Package) {
		for _, e := range p.Errors {
			errs = append(errs, e.Error())
		}
	})
	if len(errs) > 0 {
		return nil, fmt.Errorf("load: %v", errs)
	}
	sp, _ := ssautil.AllPackages(initial, ssa.InstantiateGenerics)
	sp.Build()
	p := &Prog{
		ssa:     sp,
		pkgs:    map[string]*ssa.Package{},
		fns:     map[*ssa.Function]*Fn{},
		globals: map[*ssa.Global]int{},
		sizes:   types.SizesFor("gc", "amd64"),
	}
	seen := map[*types.Package]bool{}
	var visit func(tp *types.Package)
	visit = func(tp *types.Package) {
		if seen[tp] {
			return
		}
		seen[tp] = true
		for _, d := range tp.Imports() {
			visit(d)
		}
		if pk := sp.Package(tp); pk != nil {
			p.initOrd = append(p.initOrd, pk)
		}
	}
	for _, pk := range sp.AllPackages() {
		p.pkgs[pk.Pkg.Path()] = pk
	}
	for _, ip := range initial {
		visit(ip.Types)
	}
	p.tString = p.typ(types.Typ[types.String])
	p.tByte = p.typ(types.Typ[types.Byte])
	p.tRune = p.typ(types.Typ[types.Rune])
	p.tErr = p.typ(types.Universe.Lookup("error").Type())
	if rt := p.pkgs["runtime"]; rt != nil {
		if o := rt.Pkg.Scope().Lookup("errorString"); o != nil {
			p.tRTErr = p.typ(o.Type())
		}
	}
	p.tPoison = &TypeInfo{str: "poison", kind: kPtr, cells: 1, t: types.Typ[types.UnsafePointer], u: types.Typ[types.UnsafePointer], id: -1}
	if p.tRTErr == nil {
		p.tRTErr = p.tString
	}
	return p, nil
}

// typ returns the canonical TypeInfo of t.
func (p *Prog) typ(t types.Type) *TypeInfo {
	p.mu.Lock()
	defer p.mu.Unlock()
	return p.typL(t)
}

func (p *Prog) typL(t types.Type) *TypeInfo {
	if x := p.types.At(t); x != nil {
		return x.(*TypeInfo)
	}
	ti := &TypeInfo{t: t, u: t.Underlying(), id: p.ntypes, cells: 1}
	p.ntypes++
	p.types.Set(t, ti)
	func() {
		defer func() {
			if recover() != nil {
				ti.bytes = 8
			}
		}()
		if tp, ok := t.(*types.Tuple); ok {
			_ = tp
			return
		}
		ti.bytes = p.sizes.Sizeof(t)
	}()
	ti.str = types.TypeString(t, nil)
	switch u := ti.u.(type) {
	case *types.Basic:
		ti.noscan = true
		switch {
		case u.Info()&types.IsBoolean != 0:
			ti.kind = kBool
		case u.Info()&types.IsInteger != 0:
			ti.kind = kInt
			ti.signed = u.Info()&types.IsUnsigned == 0
			ti.w = 64
			switch u.Kind() {
			case types.Int8, types.Uint8:
				ti.w = 8
			case types.Int16, types.Uint16:
				ti.w = 16
			case types.Int32, types.Uint32, types.UntypedRune:
				ti.w = 32
			}
		case u.Info()&types.IsFloat != 0:
			ti.kind = kFloat
			ti.w = 64
			if u.Kind() == types.Float32 {
				ti.w = 32
			}
		case u.Info()&types.IsComplex != 0:
			ti.kind = kComplex
		case u.Info()&types.IsString != 0:
			ti.kind = kString
			ti.noscan = false
		case u.Kind() == types.UnsafePointer:
			ti.kind = kUnsafe
			ti.noscan = false
		case u.Kind() == types.UntypedNil:
			ti.kind = kPtr
		}
	case *types.Pointer:
		ti.kind = kPtr
		ti.elem = p.typL(u.Elem())
	case *types.Slice:
		ti.kind = kSlice
		ti.elem = p.typL(u.Elem())
	case *types.Map:
		ti.kind = kMap
		ti.key = p.typL(u.Key())
		ti.elem = p.typL(u.Elem())
	case *types.Chan:
		ti.kind = kChan
		ti.elem = p.typL(u.Elem())
	case *types.Signature:
		ti.kind = kFunc
	case *types.Interface:
		ti.kind = kIface
	case *types.Struct:
		ti.kind = kStruct
		off := 0
		ti.noscan = true
		for i := 0; i < u.NumFields(); i++ {
			f := p.typL(u.Field(i).Type())
			ti.fields = append(ti.fields, FieldInfo{off, f})
			off += f.cells
			if !f.noscan {
				ti.noscan = false
			}
		}
		ti.cells = off
	case *types.Array:
		ti.kind = kArray
		ti.elem = p.typL(u.Elem())
		ti.n = int(u.Len())
		ti.cells = ti.n * ti.elem.cells
		ti.noscan = ti.elem.noscan
	case *types.Tuple:
		ti.kind = kTuple
	}
	return ti
}

func (p *Prog) globalID(g *ssa.Global) int {
	p.mu.Lock()
	defer p.mu.Unlock()
	id, ok := p.globals[g]
	if !ok {
		id = len(p.glist)
		p.globals[g] = id
		p.glist = append(p.glist, g)
	}
	return id
}

// Fn is a function prepared for interpretation.
type Fn struct {
	f       *ssa.Function
	name    string
	p       *Prog
	once    sync.Once
	ready   atomic.Bool
	blocks  []*Block
	nregs   int
	nparams int
	nfree   int
	intr    func(m *M, fr *Frame, args []V) V
	recov   *Block
	defers  bool
	clo     *Closure
	nres    int
	noBody  bool
	touched atomic.Bool
	isRule  bool
}

func (p *Prog) fn(f *ssa.Function) *Fn {
	p.mu.Lock()
	fn, ok := p.fns[f]
	if !ok {
		fn = &Fn{f: f, p: p, name: f.String()}
		fn.clo = &Closure{fn: fn}
		fn.nparams = len(f.Params)
		fn.nfree = len(f.FreeVars)
		fn.nres = f.Signature.Results().Len()
		nm := fn.name
		if o := f.Origin(); o != nil {
			nm = o.String()
		}
		fn.intr = intrinsics[nm]
		if f.Synthetic == "package initializer" && f.Pkg != nil && skipInit(f.Pkg.Pkg.Path()) {
			fn.intr = nop
		}
		fn.isRule = isRuleFn(f)
		p.fns[f] = fn
	}
	p.mu.Unlock()
	return fn
}

func (fn *Fn) ensure() {
	if !fn.ready.Load() {
		fn.once.Do(func() {
			fn.compile()
			fn.ready.Store(true)
		})
	}
}

type methKey struct {
	ti   *TypeInfo
	name string
	pkg  *types.Package
}

// method finds the concrete method to call on a value of dynamic type ti.
func (p *Prog) method(ti *TypeInfo, m *types.Func) *Fn {
	if ti == p.tPoison {
		panic(pathAbort{"poison", ""})
	}
	key := methKey{ti, m.Name(), nil}
	if !m.Exported() {
		key.pkg = m.Pkg()
	}
	if f, ok := p.methCache.Load(key); ok {
		return f.(*Fn)
	}
	sf := p.ssa.LookupMethod(ti.t, m.Pkg(), m.Name())
	if sf == nil {
		panic(engErr("no method %s on %s", m.Name(), ti.str))
	}
	f := p.fn(sf)
	p.methCache.Store(key, f)
	return f
}

func (p *Prog) methodByName(ti *TypeInfo, name string) *Fn {
	ms := p.ssa.MethodSets.MethodSet(ti.t)
	for i := 0; i < ms.Len(); i++ {
		if ms.At(i).Obj().Name() == name {
			return p.fn(p.ssa.MethodValue(ms.At(i)))
		}
	}
	return nil
}

type implKey struct{ a, b *TypeInfo }

func (p *Prog) implements(ti, itf *TypeInfo) bool {
	k := implKey{ti, itf}
	if r, ok := p.implCache.Load(k); ok {
		return r.(bool)
	}
	p.mu.Lock()
	r := types.Implements(ti.t, itf.u.(*types.Interface))
	p.mu.Unlock()
	p.implCache.Store(k, r)
	return r
}

func (p *Prog) constV(c *ssa.Const) V {
	t := c.Type()
	if c.Value == nil {
		return p.typ(t).zero()
	}
	ti := p.typ(t)
	switch ti.kind {
	case kBool:
		return vbool(constant.BoolVal(c.Value))
	case kInt:
		v := constant.ToInt(c.Value)
		if i, ok := constant.Int64Val(v); ok {
			return V{n: uint64(i) & mask(ti.w)}
		}
		u, _ := constant.Uint64Val(v)
		return V{n: u & mask(ti.w)}
	case kFloat:
		f, _ := constant.Float64Val(c.Value)
		return vflt(f)
	case kString:
		if c.Value.Kind() == constant.String {
			s := constant.StringVal(c.Value)
			if s == "" {
				return V{}
			}
			return V{p: s}
		}
		i, _ := constant.Int64Val(c.Value)
		return V{p: string(rune(i))}
	case kComplex:
		return V{}
	case kIface:
		// constant of type parameter-derived interface
		return V{}
	}
	panic(engErr("constV %s : %s", c, t))
}
