package main

import (
	"fmt"
	"go/types"
	"math"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// V is a value of the interpreted program.  Integers and booleans: n when p is
// nil, otherwise p is a *Term.  Floats: n holds the IEEE bits (or p is a
// *SFloat).  Strings: p is nil, string or *SStr.  Pointers: p is *Obj and n
// the cell offset.  The zero V is the zero value of every scalar type.
type V struct {
	n uint64
	p any
}

// Agg is a struct or array value: its flattened cells.
type Agg struct{ c []V }

// Tuple is a multi-value result.
type Tuple struct{ v []V }

// SStr is a string with symbolic bytes; each cell is a byte or a w=8 term.
type SStr struct{ b []V }

// SFloat is a float known to equal a (symbolic) 64-bit signed integer.
type SFloat struct{ t *Term }

// Obj is an allocation: flattened cells.
type Obj struct {
	cells []V
	epoch uint32
	esc   bool // another call can reach it (conc.go)
	site  string
}

type SymPtr struct {
	o     *Obj
	base  int
	n     int
	esz   int
	idx   *Term // 64-bit
	extra int
}

type Slice struct {
	o             *Obj
	off, len, cap int
	esz           int
}

type Iface struct {
	ti *TypeInfo
	v  V
}

type Closure struct {
	fn    *Fn
	binds []V
	bound *ssa.Builtin
}

type mapEnt struct {
	k, v V
	live bool
}

type Map struct {
	idx   map[any]int
	ents  []mapEnt
	live  int
	nsym  int // entries with symbolic keys
	epoch uint32
	esc   bool
}

type Kind uint8

const (
	kInvalid Kind = iota
	kBool
	kInt
	kFloat
	kComplex
	kString
	kPtr
	kUnsafe
	kSlice
	kMap
	kChan
	kFunc
	kIface
	kStruct
	kArray
	kTuple
)

type FieldInfo struct {
	off int
	ti  *TypeInfo
}

type TypeInfo struct {
	t      types.Type
	u      types.Type
	kind   Kind
	w      uint8
	signed bool
	cells  int
	bytes  int64
	noscan bool
	fields []FieldInfo
	elem   *TypeInfo
	key    *TypeInfo
	n      int
	id     int
	str    string
}

func (ti *TypeInfo) agg() bool { return ti.kind == kStruct || ti.kind == kArray }

func (ti *TypeInfo) zero() V {
	if ti.agg() {
		return V{p: &Agg{make([]V, ti.cells)}}
	}
	return V{}
}

func vint(x int) V     { return V{n: uint64(int64(x))} }
func vbool(b bool) V   { return V{n: b2u(b)} }
func vstr(s string) V  { return V{p: s} }
func vflt(f float64) V { return V{n: math.Float64bits(f)} }

func strLen(v V) int {
	switch s := v.p.(type) {
	case nil:
		return 0
	case string:
		return len(s)
	case *SStr:
		return len(s.b)
	}
	panic(engErr("strLen of %T", v.p))
}

func strConc(v V) (string, bool) {
	switch s := v.p.(type) {
	case nil:
		return "", true
	case string:
		return s, true
	}
	return "", false
}

func strByte(v V, i int) V {
	switch s := v.p.(type) {
	case string:
		return V{n: uint64(s[i])}
	case *SStr:
		return s.b[i]
	}
	panic(engErr("strByte of %T", v.p))
}

// mkStr makes a string value of the given byte cells.
func mkStr(b []V) V {
	if len(b) == 0 {
		return V{}
	}
	for _, x := range b {
		if x.p != nil {
			return V{p: &SStr{b}}
		}
	}
	buf := make([]byte, len(b))
	for i, x := range b {
		buf[i] = byte(x.n)
	}
	return V{p: string(buf)}
}

func strCells(v V) []V {
	switch s := v.p.(type) {
	case nil:
		return nil
	case string:
		out := make([]V, len(s))
		for i := 0; i < len(s); i++ {
			out[i].n = uint64(s[i])
		}
		return out
	case *SStr:
		return s.b
	}
	panic(engErr("strCells of %T", v.p))
}

func strSlice(v V, lo, hi int) V {
	if lo == hi {
		return V{}
	}
	switch s := v.p.(type) {
	case string:
		return V{p: s[lo:hi]}
	case *SStr:
		return mkStr(s.b[lo:hi:hi])
	}
	panic(engErr("strSlice of %T", v.p))
}

func strCat(a, b V) V {
	if a.p == nil {
		return b
	}
	if b.p == nil {
		return a
	}
	x, ok1 := a.p.(string)
	y, ok2 := b.p.(string)
	if ok1 && ok2 {
		return V{p: x + y}
	}
	ca, cb := strCells(a), strCells(b)
	out := make([]V, 0, len(ca)+len(cb))
	out = append(out, ca...)
	out = append(out, cb...)
	return V{p: &SStr{out}}
}

type engineError struct{ msg string }

func engErr(f string, a ...any) engineError { return engineError{fmt.Sprintf(f, a...)} }

// pathAbort ends the current path.
type pathAbort struct {
	kind string // "infeasible", "unsupported", "limit", "assume", "done"
	msg  string
}

// targetPanic is a panic of the interpreted program.
type targetPanic struct {
	v V // interface value
}

func valString(v V) string {
	switch x := v.p.(type) {
	case nil:
		return fmt.Sprint(int64(v.n))
	case string:
		return fmt.Sprintf("%q", x)
	case *SStr:
		var sb strings.Builder
		for _, c := range x.b {
			if c.p != nil {
				sb.WriteByte('?')
			} else {
				sb.WriteByte(byte(c.n))
			}
		}
		return fmt.Sprintf("sym%q", sb.String())
	case *Iface:
		return x.ti.str + ":" + valString(x.v)
	}
	return fmt.Sprintf("%T", v.p)
}
