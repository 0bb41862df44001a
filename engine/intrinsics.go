package main

import (
	"fmt"
	"math"
	"math/bits"
	"strconv"
	"strings"
	"unicode/utf8"
)

type intrFn = func(m *M, fr *Frame, a []V) V

// intrinsics replaces the body of a function, by its SSA name.
var intrinsics = map[string]intrFn{}

// intrFallback lists the intrinsics that may still run the real body.
var intrFallback = map[string]bool{}

// pureCall lists functions that may run while a branch is being merged.
var pureCall = map[string]bool{}

// stubbed lists what is replaced by a model rather than executed; the evidence
// reports it.
var stubbed = map[string]string{}

func skipInit(path string) bool {
	switch path {
	case "time", "strings", "strconv", "mime", "unicode", "unicode/utf8", "io", "bytes", "sort", "slices", "cmp", "iter", "maps", "math", "math/bits",
		"encoding/base64", "encoding/binary", "encoding/hex", "errors", "net/mail", "regexp", "regexp/syntax", "unicode/utf16", "internal/bytealg", "internal/stringslite", "bufio", "io/fs":
		return false
	}
	if strings.HasPrefix(path, "internal/") || strings.HasPrefix(path, "runtime") || strings.HasPrefix(path, "golang.org/") ||
		strings.HasPrefix(path, "vendor/") || strings.HasPrefix(path, "crypto") {
		return true
	}
	// remaining standard library packages hold no state the code under test uses
	return !strings.Contains(strings.SplitN(path, "/", 2)[0], ".") && !strings.HasPrefix(path, "vpharness")
}

func nop(m *M, fr *Frame, a []V) V { return V{} }

const opaque = "\x00opaque\x00"

func reg(f intrFn, names ...string) {
	for _, n := range names {
		intrinsics[n] = f
	}
}

func tuple(v ...V) V { return V{p: &Tuple{v}} }

func init() {
	// --- no-ops ---
	lock := func(acquire, shared bool) intrFn {
		return func(m *M, fr *Frame, a []V) V { m.lockOp(a[0], acquire, shared); return V{} }
	}
	reg(lock(true, false), "(*sync.Mutex).Lock", "(*sync.RWMutex).Lock")
	reg(lock(false, false), "(*sync.Mutex).Unlock", "(*sync.RWMutex).Unlock")
	reg(lock(true, true), "(*sync.RWMutex).RLock")
	reg(lock(false, true), "(*sync.RWMutex).RUnlock")
	reg(func(m *M, fr *Frame, a []V) V {
		fn := m.p.member("sync", "Once", "Do")
		if !m.crec || m.conc.off > 0 {
			return m.callBody(fn, a, fr)
		}
		o, _ := a[0].p.(*Obj)
		ti := m.p.typ(m.p.pkgs["sync"].Type("Once").Type())
		done := o != nil && changed(o.cells[int(a[0].n):int(a[0].n)+ti.cells])
		r := m.callBody(fn, a, fr)
		if !done {
			m.syncEvent(cOnceEnd, o, int(a[0].n))
		}
		m.syncEvent(cOnceRet, o, int(a[0].n))
		return r
	}, "(*sync.Once).Do")
	intrFallback["(*sync.Once).Do"] = true
	reg(nop, "(*internal/sync.Mutex).Lock", "(*internal/sync.Mutex).Unlock",
		"fmt.Println", "fmt.Printf", "fmt.Print",
		"runtime.KeepAlive", "runtime.SetFinalizer", "runtime.GC",
		"time.initLocal", "(*internal/godebug.Setting).IncNonDefault", "(*internal/godebug.Setting).register",
		"internal/race.Acquire", "internal/race.Release", "internal/race.ReadRange", "internal/race.WriteRange",
		"internal/msan.Read", "internal/asan.Read")
	reg(func(m *M, fr *Frame, a []V) V { return V{} }, "(*internal/godebug.Setting).Value")
	reg(func(m *M, fr *Frame, a []V) V {
		return V{p: &Obj{cells: make([]V, 16), epoch: m.epoch}}
	}, "internal/godebug.New")
	reg(func(m *M, fr *Frame, a []V) V { return a[0] },
		"internal/abi.NoEscape", "internal/abi.Escape", "strings.noescape", "internal/stringslite.Clone")
	for _, w := range []string{"Int32", "Int64", "Uint32", "Uint64", "Uintptr", "Pointer"} {
		reg(func(m *M, fr *Frame, a []V) V { return m.atomicLoad(a[0]) }, "sync/atomic.Load"+w)
		reg(func(m *M, fr *Frame, a []V) V { m.cellStore(a[0], a[1]); return V{} }, "sync/atomic.Store"+w)
		reg(func(m *M, fr *Frame, a []V) V {
			old := m.atomicLoad(a[0])
			m.cellStore(a[0], a[1])
			return old
		}, "sync/atomic.Swap"+w)
		reg(func(m *M, fr *Frame, a []V) V {
			old := m.atomicLoad(a[0])
			if old == a[1] {
				m.cellStore(a[0], a[2])
				return vbool(true)
			}
			return vbool(false)
		}, "sync/atomic.CompareAndSwap"+w)
		wd := uint8(64)
		if strings.HasSuffix(w, "32") {
			wd = 32
		}
		reg(func(m *M, fr *Frame, a []V) V {
			old := m.atomicLoad(a[0])
			n := V{n: (old.n + a[1].n) & mask(wd)}
			m.cellStore(a[0], n)
			return n
		}, "sync/atomic.Add"+w)
	}
	reg(func(m *M, fr *Frame, a []V) V {
		// Pool.Get: the element put back last, a fresh one if there is none
		o := a[0].p.(*Obj)
		ti := m.p.typ(m.p.pkgs["sync"].Type("Pool").Type())
		at := V{p: o, n: a[0].n + uint64(ti.fields[1].off)}
		if m.crec {
			m.conc.off++
		}
		if l := sliceCells(m.atomicLoad(at)); len(l) > 0 {
			n := len(l) - 1
			m.cellStore(at, m.newSlice(append([]V(nil), l[:n]...), n, 1))
			if m.crec {
				m.conc.off--
				m.poolEvent(cGet, l[n])
			}
			return l[n]
		}
		if m.crec {
			m.conc.off--
		}
		off := ti.fields[len(ti.fields)-1].off
		cl, _ := o.cells[int(a[0].n)+off].p.(*Closure)
		if cl == nil {
			return V{}
		}
		return m.callClosure(cl, nil, fr)
	}, "(*sync.Pool).Get")
	reg(func(m *M, fr *Frame, a []V) V {
		if a[1].p == nil {
			return V{}
		}
		o := a[0].p.(*Obj)
		ti := m.p.typ(m.p.pkgs["sync"].Type("Pool").Type())
		at := V{p: o, n: a[0].n + uint64(ti.fields[1].off)}
		if m.crec {
			m.escape(a[1])
			m.poolEvent(cPut, a[1])
			m.conc.off++
			defer func() { m.conc.off-- }()
		}
		l := append(append([]V(nil), sliceCells(m.atomicLoad(at))...), a[1])
		m.cellStore(at, m.newSlice(l, len(l), 1))
		return V{}
	}, "(*sync.Pool).Put")

	// --- math ---
	reg(func(m *M, fr *Frame, a []V) V { return V{n: m.concFloat(a[0]).n} }, "math.Float64bits")
	reg(func(m *M, fr *Frame, a []V) V { return V{n: m.concInt(a[0], 64)} }, "math.Float64frombits")
	reg(func(m *M, fr *Frame, a []V) V {
		return V{n: uint64(math.Float32bits(float32(math.Float64frombits(m.concFloat(a[0]).n))))}
	}, "math.Float32bits")
	reg(func(m *M, fr *Frame, a []V) V { return vflt(float64(math.Float32frombits(uint32(a[0].n)))) }, "math.Float32frombits")
	reg(func(m *M, fr *Frame, a []V) V {
		if a[0].p != nil || a[1].p != nil {
			return m.mul64(a[0], a[1])
		}
		hi, lo := bits.Mul64(a[0].n, a[1].n)
		return tuple(V{n: hi}, V{n: lo})
	}, "math/bits.Mul64")
	bit := func(name string, w uint8, f func(x uint64) int) {
		reg(func(m *M, fr *Frame, a []V) V {
			if a[0].p == nil {
				return vint(f(a[0].n))
			}
			return tv(m.tc.mapPWOr(m, a[0].p.(*Term), 64, func(x uint64) uint64 { return uint64(f(x)) }))
		}, name)
	}
	bit("math/bits.Len64", 64, bits.Len64)
	bit("math/bits.Len32", 32, bits.Len64)
	bit("math/bits.Len", 64, bits.Len64)
	bit("math/bits.TrailingZeros64", 64, bits.TrailingZeros64)
	bit("math/bits.LeadingZeros64", 64, bits.LeadingZeros64)
	bit("math/bits.OnesCount64", 64, bits.OnesCount64)

	fl := func(f func(float64) float64, names ...string) {
		reg(func(m *M, fr *Frame, a []V) V {
			if sf, ok := a[0].p.(*SFloat); ok {
				return V{p: sf}
			}
			return vflt(f(math.Float64frombits(a[0].n)))
		}, names...)
	}
	fl(math.Floor, "math.Floor", "math.floor", "math.archFloor")
	fl(math.Ceil, "math.Ceil", "math.ceil", "math.archCeil")
	fl(math.Trunc, "math.Trunc", "math.trunc", "math.archTrunc")
	reg(func(m *M, fr *Frame, a []V) V { return vint(1) }, "time.runtimeNano", "time.runtimeNow")

	// --- utf8 ---
	decS := func(m *M, c []V) V {
		if len(c) == 0 {
			return tuple(V{n: utf8.RuneError}, V{})
		}
		r, n := m.decodeRune(c)
		return tuple(r, vint(n))
	}
	reg(func(m *M, fr *Frame, a []V) V { return decS(m, sliceCells(a[0])) }, "unicode/utf8.DecodeRune", "unicode/utf8.decodeRuneSlow")
	reg(func(m *M, fr *Frame, a []V) V { return decS(m, strCells(a[0])) }, "unicode/utf8.DecodeRuneInString", "unicode/utf8.decodeRuneInStringSlow")
	reg(func(m *M, fr *Frame, a []V) V {
		out := m.encodeRune(nil, a[1])
		ti := m.p.typ(m.p.pkgs["unicode/utf8"].Func("AppendRune").Params[0].Type())
		return m.appendCells(ti, a[0], out, len(out))
	}, "unicode/utf8.AppendRune")
	reg(func(m *M, fr *Frame, a []V) V {
		out := m.encodeRune(nil, a[1])
		s, _ := a[0].p.(*Slice)
		if s == nil || s.len < len(out) {
			m.rtPanic("index out of range")
		}
		for i, c := range out {
			if s.o.epoch != m.epoch {
				m.log(s.o, s.off+i)
			}
			s.o.cells[s.off+i] = c
		}
		return vint(len(out))
	}, "unicode/utf8.EncodeRune")
	count := func(m *M, c []V) V {
		n := 0
		for i := 0; i < len(c); n++ {
			_, k := m.decodeRune(c[i:])
			i += k
		}
		return vint(n)
	}
	reg(func(m *M, fr *Frame, a []V) V { return count(m, sliceCells(a[0])) }, "unicode/utf8.RuneCount")
	reg(func(m *M, fr *Frame, a []V) V { return count(m, strCells(a[0])) }, "unicode/utf8.RuneCountInString")
	valid := func(m *M, c []V) V {
		for i := 0; i < len(c); {
			r, k := m.decodeRune(c[i:])
			if k == 1 && r.p == nil && r.n == utf8.RuneError {
				return vbool(false)
			}
			i += k
		}
		return vbool(true)
	}
	reg(func(m *M, fr *Frame, a []V) V { return valid(m, sliceCells(a[0])) }, "unicode/utf8.Valid")
	reg(func(m *M, fr *Frame, a []V) V { return valid(m, strCells(a[0])) }, "unicode/utf8.ValidString")

	// --- bytes and strings ---
	idxByte := func(m *M, c []V, b V) V {
		t := m.term(b, 8)
		for i, x := range c {
			if m.branch(m.tc.Eq(m.term(x, 8), t)) {
				return vint(i)
			}
		}
		return vint(-1)
	}
	reg(func(m *M, fr *Frame, a []V) V { return idxByte(m, sliceCells(a[0]), a[1]) }, "internal/bytealg.IndexByte", "bytes.IndexByte")
	reg(func(m *M, fr *Frame, a []V) V { return idxByte(m, strCells(a[0]), a[1]) }, "internal/bytealg.IndexByteString", "strings.IndexByte", "internal/stringslite.IndexByte")
	lastIdx := func(m *M, c []V, b V) V {
		t := m.term(b, 8)
		for i := len(c) - 1; i >= 0; i-- {
			if m.branch(m.tc.Eq(m.term(c[i], 8), t)) {
				return vint(i)
			}
		}
		return vint(-1)
	}
	reg(func(m *M, fr *Frame, a []V) V { return lastIdx(m, strCells(a[0]), a[1]) }, "internal/bytealg.LastIndexByteString", "strings.LastIndexByte")
	reg(func(m *M, fr *Frame, a []V) V { return lastIdx(m, sliceCells(a[0]), a[1]) }, "internal/bytealg.LastIndexByte")
	cnt := func(m *M, c []V, b V) V {
		t := m.term(b, 8)
		n := m.tc.Const(0, 64)
		for _, x := range c {
			n = m.tc.Add(n, m.tc.Ite(m.tc.Eq(m.term(x, 8), t), m.tc.Const(1, 64), m.tc.Const(0, 64)))
		}
		return tv(n)
	}
	reg(func(m *M, fr *Frame, a []V) V { return cnt(m, sliceCells(a[0]), a[1]) }, "internal/bytealg.Count")
	reg(func(m *M, fr *Frame, a []V) V { return cnt(m, strCells(a[0]), a[1]) }, "internal/bytealg.CountString")
	index := func(m *M, c, s []V) V {
		for i := 0; i+len(s) <= len(c); i++ {
			e := m.tc.tTrue
			for j := range s {
				e = m.tc.And(e, m.tc.Eq(m.term(c[i+j], 8), m.term(s[j], 8)))
			}
			if m.branch(e) {
				return vint(i)
			}
		}
		return vint(-1)
	}
	reg(func(m *M, fr *Frame, a []V) V { return index(m, strCells(a[0]), strCells(a[1])) }, "strings.Index", "internal/stringslite.Index", "internal/bytealg.IndexString")
	reg(func(m *M, fr *Frame, a []V) V { return index(m, sliceCells(a[0]), sliceCells(a[1])) }, "bytes.Index", "internal/bytealg.Index")
	reg(func(m *M, fr *Frame, a []V) V {
		return tv(m.strEq(mkStr(sliceCells(a[0])), mkStr(sliceCells(a[1]))))
	}, "bytes.Equal", "internal/bytealg.Equal")
	reg(func(m *M, fr *Frame, a []V) V {
		n := int(m.concInt(a[0], 64))
		return m.newSlice(make([]V, n), n, 1)
	}, "internal/bytealg.MakeNoZero")
	reg(func(m *M, fr *Frame, a []V) V {
		x, y := a[0], a[1]
		if m.branch(m.strEq(x, y)) {
			return V{}
		}
		if m.strLess(x, y) {
			return vint(-1)
		}
		return vint(1)
	}, "internal/bytealg.CompareString", "strings.Compare")
	mapASCII := func(lo, hi uint64, delta uint64) intrFn {
		return func(m *M, fr *Frame, a []V) V {
			if s, ok := strConc(a[0]); ok {
				if lo == 'a' {
					return mkStr(strCells(V{p: strings.ToUpper(s)}))
				}
				return mkStr(strCells(V{p: strings.ToLower(s)}))
			}
			c := strCells(a[0])
			out := make([]V, len(c))
			for i, x := range c {
				t := m.term(x, 8)
				if m.branch(m.tc.Not(m.tc.Ult(t, m.tc.Const(0x80, 8)))) {
					m.unsupported("case mapping of non-ASCII text")
				}
				up := m.tc.And(m.tc.Not(m.tc.Ult(t, m.tc.Const(lo, 8))), m.tc.Not(m.tc.Ult(m.tc.Const(hi, 8), t)))
				out[i] = tv(m.tc.Ite(up, m.tc.Add(t, m.tc.Const(delta, 8)), t))
			}
			return mkStr(out)
		}
	}
	reg(mapASCII('A', 'Z', 32), "strings.ToLower")
	reg(mapASCII('a', 'z', 0xe0), "strings.ToUpper")
	lower := intrinsics["strings.ToLower"]
	intrinsics["strings.EqualFold"] = func(m *M, fr *Frame, a []V) V {
		x, ok1 := strConc(a[0])
		y, ok2 := strConc(a[1])
		if ok1 && ok2 {
			return vbool(strings.EqualFold(x, y))
		}
		return tv(m.strEq(lower(m, fr, a[:1]), lower(m, fr, a[1:2])))
	}
	reg(func(m *M, fr *Frame, a []V) V {
		// strings.Map etc. run their bodies; only Repeat of constants is short-cut
		s, ok := strConc(a[0])
		n := int(m.concInt(a[1], 64))
		if n < 0 {
			m.rtPanic("strings: negative Repeat count")
		}
		if ok {
			return mkStr(strCells(V{p: strings.Repeat(s, n)}))
		}
		var out []V
		for i := 0; i < n; i++ {
			out = append(out, strCells(a[0])...)
		}
		return mkStr(out)
	}, "strings.Repeat")
	reg(func(m *M, fr *Frame, a []V) V { return a[0] }, "strings.Clone")
	// strings.Join without the builder
	reg(func(m *M, fr *Frame, a []V) V {
		var out []V
		for i, s := range sliceCells(a[0]) {
			if i > 0 {
				out = append(out, strCells(a[1])...)
			}
			out = append(out, strCells(s)...)
		}
		return mkStr(out)
	}, "strings.Join")
	reg(func(m *M, fr *Frame, a []V) V {
		o := a[0].p.(*Obj)
		base := int(a[0].n)
		return mkStr(append([]V(nil), sliceCells(o.cells[base+1])...))
	}, "(*strings.Builder).String")
	reg(nop, "(*strings.Builder).copyCheck")

	// --- fmt ---
	reg(func(m *M, fr *Frame, a []V) V {
		s, _ := m.sprintf(fr, a[0], sliceCells(a[1]))
		return s
	}, "fmt.Sprintf")
	reg(func(m *M, fr *Frame, a []V) V { return m.sprint(fr, sliceCells(a[0]), false) }, "fmt.Sprint")
	reg(func(m *M, fr *Frame, a []V) V { return m.sprint(fr, sliceCells(a[0]), true) }, "fmt.Sprintln")
	reg(func(m *M, fr *Frame, a []V) V {
		s, _ := m.sprintf(fr, a[1], sliceCells(a[2]))
		return m.write(a[0], s)
	}, "fmt.Fprintf")
	reg(func(m *M, fr *Frame, a []V) V { return m.write(a[0], m.sprint(fr, sliceCells(a[1]), false)) }, "fmt.Fprint")
	reg(func(m *M, fr *Frame, a []V) V { return m.write(a[0], m.sprint(fr, sliceCells(a[1]), true)) }, "fmt.Fprintln")
	reg(func(m *M, fr *Frame, a []V) V {
		s, _ := m.sprintf(fr, a[1], sliceCells(a[2]))
		return m.appended(a[0], s)
	}, "fmt.Appendf")
	reg(func(m *M, fr *Frame, a []V) V { return m.appended(a[0], m.sprint(fr, sliceCells(a[1]), false)) }, "fmt.Append")
	reg(func(m *M, fr *Frame, a []V) V { return m.appended(a[0], m.sprint(fr, sliceCells(a[1]), true)) }, "fmt.Appendln")
	reg(func(m *M, fr *Frame, a []V) V {
		s, wrapped := m.sprintf(fr, a[0], sliceCells(a[1]))
		if wrapped.p != nil {
			// a wrapping error: its identity matters to errors.Is/As
			we := m.p.typ(m.p.pkgs["fmt"].Type("wrapError").Type())
			o := &Obj{cells: make([]V, we.cells), epoch: m.epoch}
			o.cells[we.fields[0].off] = s
			o.cells[we.fields[1].off] = wrapped
			pt := m.p.ptrTo(m.p.pkgs["fmt"].Type("wrapError").Type())
			return V{p: &Iface{pt, V{p: o}}}
		}
		es := m.p.pkgs["errors"].Func("New")
		return m.callFn(m.p.fn(es), s)
	}, "fmt.Errorf")

	// --- time ---
	reg(func(m *M, fr *Frame, a []V) V { return m.timeNow() }, "time.Now")

	// --- errors ---
	// errors.Is on concrete values runs its body; reflectlite is needed only
	// for comparability
	reg(func(m *M, fr *Frame, a []V) V {
		x, _ := a[0].p.(*Iface)
		if x == nil {
			return V{}
		}
		return V{p: x}
	}, "internal/reflectlite.TypeOf")

	for n := range intrinsics {
		stubbed[n] = "std"
	}
	vpInit()
	syncMapInit()
	antlrInit()
}

func (m *M) atomicLoad(p V) V {
	o, ok := p.p.(*Obj)
	if !ok {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if m.crec {
		m.atomicAcc(p, false)
	}
	return o.cells[p.n]
}

func (m *M) cellStore(p V, v V) {
	o, ok := p.p.(*Obj)
	if !ok {
		m.rtPanic("invalid memory address or nil pointer dereference")
	}
	if m.crec {
		m.atomicAcc(p, true)
		m.escStore(o, v)
	}
	if o.epoch != m.epoch {
		m.log(o, int(p.n))
	}
	o.cells[p.n] = v
}

// mul64 is bits.Mul64 on symbolic operands, where the product fits 64 bits or
// the operands depend on one small-domain variable.
func (m *M) mul64(a, b V) V {
	x, y := m.term(a, 64), m.term(b, 64)
	if isC(x) {
		x, y = y, x
	}
	if isC(y) {
		lo, hi, ok := m.tc.urange(x)
		if ok {
			h, _ := bits.Mul64(hi, y.k)
			l, _ := bits.Mul64(lo, y.k)
			if h == l && h == 0 {
				return tuple(V{}, tv(m.tc.Mul(x, y)))
			}
		}
		k := y.k
		h := m.tc.mapPWOr(m, x, 64, func(v uint64) uint64 { h, _ := bits.Mul64(v, k); return h })
		return tuple(tv(h), tv(m.tc.Mul(x, y)))
	}
	m.unsupported("bits.Mul64 of two symbolic operands")
	return V{}
}

// mapPWOr applies f to a one-variable term by tabulation.
func (c *TermCtx) mapPWOr(m *M, t *Term, w uint8, f func(uint64) uint64) *Term {
	if t.op == OpPW {
		return c.mapPW(t, w, f)
	}
	if !t.multi && t.v != nil && t.v.n <= 70000 {
		var out []Piece
		tt := c.table(t)
		i := 0
		for _, iv := range t.v.init {
			for x := iv.lo; ; x++ {
				r := f(tt[i]) & mask(w)
				i++
				if k := len(out); k > 0 && out[k-1].val == r && out[k-1].hi+1 == x {
					out[k-1].hi = x
				} else {
					out = append(out, Piece{x, x, r})
				}
				if x == iv.hi {
					break
				}
			}
		}
		return c.mkPW(t.v, out, w)
	}
	return c.Const(f(m.concretize(t)), w)
}

func (m *M) sprintf(fr *Frame, fv V, args []V) (V, V) {
	f, ok := strConc(fv)
	if !ok {
		m.unsupported("symbolic format string")
	}
	var out []V
	var wrapped V
	lit := func(s string) { out = append(out, strCells(vstr(s))...) }
	k := 0
	for i := 0; i < len(f); i++ {
		if f[i] != '%' {
			out = append(out, V{n: uint64(f[i])})
			continue
		}
		j := i + 1
		for j < len(f) && strings.IndexByte("+-# 0123456789.", f[j]) >= 0 {
			j++
		}
		if j >= len(f) {
			lit("%!(NOVERB)")
			break
		}
		spec, verb := f[i:j+1], f[j]
		i = j
		if verb == '%' {
			lit("%")
			continue
		}
		if k >= len(args) {
			lit("%!" + string(verb) + "(MISSING)")
			continue
		}
		arg := args[k]
		k++
		if verb == 'w' {
			wrapped = arg
			verb, spec = 'v', "%v"
		}
		out = append(out, strCells(m.fmtArg(fr, verb, spec, arg))...)
	}
	if k < len(args) {
		lit("%!(EXTRA)")
	}
	return mkStr(out), wrapped
}

// sprint prints the operands as Sprint does, or as Sprintln.
func (m *M) sprint(fr *Frame, args []V, line bool) V {
	var out []V
	str := func(v V) bool {
		itf, _ := v.p.(*Iface)
		return itf != nil && itf.ti.kind == kString
	}
	for i, x := range args {
		if i > 0 && (line || !str(x) && !str(args[i-1])) {
			out = append(out, V{n: ' '})
		}
		out = append(out, strCells(m.fmtArg(fr, 'v', "%v", x))...)
	}
	if line {
		out = append(out, V{n: '\n'})
	}
	return mkStr(out)
}

// write hands the text to an io.Writer; files take it silently.
func (m *M) write(w, s V) V {
	c := strCells(s)
	if itf, _ := w.p.(*Iface); itf != nil && itf.ti.str == "*os.File" {
		return tuple(V{n: uint64(len(c))}, V{})
	}
	return m.invoke(w, "Write", m.newSlice(append([]V(nil), c...), len(c), 1))
}

func (m *M) appended(b, s V) V {
	out := append(append([]V(nil), sliceCells(b)...), strCells(s)...)
	return m.newSlice(out, len(out), 1)
}

func (m *M) fmtArg(fr *Frame, verb byte, spec string, arg V) V {
	itf, _ := arg.p.(*Iface)
	if itf != nil && itf.ti == m.p.tPoison {
		m.abort("poison", "")
	}
	if itf == nil {
		if verb == 's' {
			return vstr("%!s(<nil>)")
		}
		return vstr("<nil>")
	}
	if verb == 'T' {
		return vstr(itf.ti.str)
	}
	plain := spec == "%v" || spec == "%s"
	if verb == 'v' || verb == 's' || verb == 'q' {
		for _, name := range []string{"Error", "String"} {
			if fn := m.p.methodByName(itf.ti, name); fn != nil && fn.f.Signature.Params().Len() == 0 && fn.nres == 1 && m.p.typ(fn.f.Signature.Results().At(0).Type()).kind == kString {
				s := m.callFn(fn, itf.v)
				if plain {
					return s
				}
				if c, ok := strConc(s); ok {
					return mkStr(strCells(vstr(fmt.Sprintf(spec, c))))
				}
				return vstr(opaque)
			}
		}
	}
	switch itf.ti.kind {
	case kString:
		if plain {
			return itf.v
		}
		if c, ok := strConc(itf.v); ok {
			return mkStr(strCells(vstr(fmt.Sprintf(spec, c))))
		}
		return vstr(opaque)
	case kInt:
		if itf.v.p == nil {
			if itf.ti.signed {
				return vstr(fmt.Sprintf(spec, sext(itf.v.n, itf.ti.w)))
			}
			return vstr(fmt.Sprintf(spec, itf.v.n))
		}
		if s, ok := m.fmtInt(itf.ti, itf.v.p.(*Term), spec); ok {
			return s
		}
		return vstr(opaque)
	case kBool:
		if itf.v.p == nil {
			return vstr(strconv.FormatBool(itf.v.n != 0))
		}
		return vstr(strconv.FormatBool(m.branchV(itf.v)))
	case kSlice:
		if itf.ti.elem.bytes == 1 && verb == 's' {
			return mkStr(append([]V(nil), sliceCells(itf.v)...))
		}
	}
	return vstr(opaque)
}

// fmtInt prints a small non-negative symbolic integer, forking on its length.
func (m *M) fmtInt(ti *TypeInfo, t *Term, spec string) (V, bool) {
	tc := m.tc
	width := 0
	switch spec {
	case "%v", "%d":
	default:
		if len(spec) == 4 && spec[1] == '0' && spec[3] == 'd' {
			width = int(spec[2] - '0')
		} else {
			return V{}, false
		}
	}
	if ti.signed {
		t = tc.SExt(t, 64)
	} else {
		t = tc.ZExt(t, 64)
	}
	lo, hi, ok := tc.srange(t)
	if !ok || lo < 0 || hi >= 100000 {
		return V{}, false
	}
	n := 1
	for p := uint64(10); n < 5; n, p = n+1, p*10 {
		if m.branch(tc.Ult(t, tc.Const(p, 64))) {
			break
		}
	}
	if n < width {
		n = width
	}
	out := make([]V, n)
	for i := n - 1; i >= 0; i-- {
		d := tc.Div(t, tc.Const(10, 64), false, true)
		out[i] = tv(tc.Add(tc.Trunc(d, 8), tc.Const('0', 8)))
		t = tc.Div(t, tc.Const(10, 64), false, false)
	}
	return mkStr(out), true
}

func (m *M) timeNow() V {
	if m.epoch == 0 {
		return m.callFn(m.p.fn(m.p.pkgs["time"].Func("Unix")), vint(1600000000), V{})
	}
	ps := m.path
	if !ps.hasClk {
		// no clock set: some fixed instant; the harness claims nothing about it
		ps.clock = vint(1700000000)
		ps.hasClk = true
	}
	return m.callFn(m.p.fn(m.p.pkgs["time"].Func("Unix")), ps.clock, V{})
}

// --- the harness API ----------------------------------------------------------

const vpPkg = "vpharness/vp"

func (m *M) cstr(v V) string {
	s, ok := strConc(v)
	if !ok {
		panic(engErr("symbolic name"))
	}
	return s
}

func (m *M) runeSet(v V) []Iv {
	c := sliceCells(v)
	var ivs []Iv
	for i := 0; i+1 < len(c); i += 2 {
		ivs = append(ivs, Iv{c[i].n, c[i+1].n})
	}
	return ivNorm(ivs)
}

func (m *M) newVar(name string, w uint8, ivs []Iv) V {
	if len(ivs) == 0 {
		m.abort("infeasible", "empty set")
	}
	for _, v := range m.tc.vars {
		if v.name == name {
			panic(engErr("variable %s declared twice", name))
		}
	}
	v := m.tc.NewVar(name, w, ivs)
	return tv(v.term)
}

func vpInit() {
	p := vpPkg + "."
	reg(func(m *M, fr *Frame, a []V) V { return m.newVar(m.cstr(a[0]), 32, m.runeSet(a[1])) }, p+"Rune")
	reg(func(m *M, fr *Frame, a []V) V {
		name := m.cstr(a[0])
		n := int(m.concInt(a[1], 64))
		ivs := m.runeSet(a[2])
		var out []V
		for i := 0; i < n; i++ {
			r := m.newVar(fmt.Sprintf("%s#%d", name, i), 32, ivs)
			out = m.encodeRune(out, r)
		}
		return mkStr(out)
	}, p+"Chars")
	reg(func(m *M, fr *Frame, a []V) V {
		name := m.cstr(a[0])
		n := int(m.concInt(a[1], 64))
		out := make([]V, n)
		for i := range out {
			out[i] = m.newVar(fmt.Sprintf("%s#%d", name, i), 8, []Iv{{0, 255}})
		}
		return mkStr(out)
	}, p+"RawBytes")
	reg(func(m *M, fr *Frame, a []V) V {
		lo, hi := int64(a[1].n), int64(a[2].n)
		mk := func(lo, hi uint64) V {
			x := m.newVar(m.cstr(a[0]), 64, []Iv{{lo, hi}})
			if t, ok := x.p.(*Term); ok && t.v.n <= 16384 {
				t.v.tab = true
			}
			return x
		}
		if lo >= 0 {
			return mk(uint64(lo), uint64(hi))
		}
		x := mk(0, uint64(hi-lo))
		return tv(m.tc.Add(m.term(x, 64), m.tc.Const(uint64(lo), 64)))
	}, p+"Int")
	reg(func(m *M, fr *Frame, a []V) V {
		n := m.concInt(a[1], 64)
		if n == 1 {
			m.path.picks[m.cstr(a[0])] = 0
			return V{}
		}
		x := m.newVar(m.cstr(a[0]), 64, []Iv{{0, n - 1}})
		return V{n: m.concInt(x, 64)}
	}, p+"Choice")
	reg(func(m *M, fr *Frame, a []V) V {
		if a[0].p == nil {
			if a[0].n == 0 {
				m.abort("assume", "")
			}
			return V{}
		}
		t := a[0].p.(*Term)
		if !m.feasible(t) {
			m.abort("assume", "")
		}
		m.assume(t)
		return V{}
	}, p+"Assume")
	reg(func(m *M, fr *Frame, a []V) V {
		m.path.checks = append(m.path.checks, check{msg: m.cstr(a[1]), cond: m.term(a[0], 0)})
		return V{}
	}, p+"Check")
	reg(func(m *M, fr *Frame, a []V) V { return m.concurrent(fr, a[0].p.(*Closure)) }, p+"Concurrent")
	reg(func(m *M, fr *Frame, a []V) V {
		m.path.known = append(m.path.known, knownAttr{m.cstr(a[0]), m.term(a[1], 0)})
		return V{}
	}, p+"Known")
	reg(func(m *M, fr *Frame, a []V) V {
		m.path.notes = append(m.path.notes, note{name: m.cstr(a[0]), v: a[1], str: true})
		return V{}
	}, p+"NoteStr")
	reg(func(m *M, fr *Frame, a []V) V {
		m.path.notes = append(m.path.notes, note{name: m.cstr(a[0]), v: a[1], w: 64})
		return V{}
	}, p+"NoteInt")
	reg(func(m *M, fr *Frame, a []V) V {
		v := a[1]
		if v.p != nil {
			v = tv(m.tc.Ite(v.p.(*Term), m.tc.Const(1, 64), m.tc.Const(0, 64)))
		}
		m.path.notes = append(m.path.notes, note{name: m.cstr(a[0]), v: v, w: 64})
		return V{}
	}, p+"NoteBool")
	fold := func(and bool) intrFn {
		return func(m *M, fr *Frame, a []V) V {
			r := m.tc.Bool(and)
			for _, x := range sliceCells(a[0]) {
				if and {
					r = m.tc.And(r, m.term(x, 0))
				} else {
					r = m.tc.Or(r, m.term(x, 0))
				}
			}
			return tv(r)
		}
	}
	reg(fold(true), p+"And")
	reg(fold(false), p+"Or")
	reg(func(m *M, fr *Frame, a []V) V {
		r := m.tc.tFalse
		t := m.term(a[0], 32)
		for _, iv := range m.runeSet(a[1]) {
			r = m.tc.Or(r, m.tc.And(m.tc.Not(m.tc.Ult(t, m.tc.Const(iv.lo, 32))), m.tc.Not(m.tc.Ult(m.tc.Const(iv.hi, 32), t))))
		}
		return tv(r)
	}, p+"In")
	reg(func(m *M, fr *Frame, a []V) V {
		t := m.term(a[0], 0)
		return tv(m.tc.Ite(t, m.term(a[1], 64), m.term(a[2], 64)))
	}, p+"IteInt")
	reg(func(m *M, fr *Frame, a []V) V {
		for _, s := range sliceCells(a[0]) {
			m.path.opts[m.cstr(s)] = true
		}
		return V{}
	}, p+"Options")
	reg(func(m *M, fr *Frame, a []V) V { return vbool(true) }, p+"Symbolic")
	reg(func(m *M, fr *Frame, a []V) V { return vbool(m.ex.deep) }, p+"Deep")
	reg(nop, p+"Show")
	reg(func(m *M, fr *Frame, a []V) V {
		m.path.clock = a[0]
		m.path.hasClk = true
		return V{}
	}, p+"SetClock")
	// Panics runs f and tells whether it panicked.
	reg(func(m *M, fr *Frame, a []V) (r V) {
		depth, sp := m.depth, m.sp
		defer func() {
			if x := recover(); x != nil {
				if tp, ok := x.(targetPanic); ok {
					m.depth, m.sp = depth, sp
					r = vbool(true)
					m.path.panicMsg = valString(tp.v)
					return
				}
				panic(x)
			}
		}()
		m.callClosure(a[0].p.(*Closure), nil, fr)
		return vbool(false)
	}, p+"Panics")
}
