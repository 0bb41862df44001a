package main

import (
	"fmt"
	"math/rand"
	"testing"
)

// TestTerms compares the normalising constructors with direct evaluation on
// random expressions over random domains.
func TestTerms(t *testing.T) {
	n := 60000
	if testing.Short() {
		n = 2000
	}
	for seed := 0; seed < n; seed++ {
		if msg := termRun(rand.New(rand.NewSource(int64(seed)))); msg != "" {
			t.Errorf("seed %d: %s", seed, msg)
			return
		}
	}
}

type tcase struct {
	t   *Term
	val []uint64
}

const nAsg = 12

func termRun(r *rand.Rand) (msg string) {
	c := NewTermCtx()
	nv := 1 + r.Intn(2)
	var vars []*Var
	asg := make([]map[*Var]uint64, nAsg)
	for i := range asg {
		asg[i] = map[*Var]uint64{}
	}
	var pool []tcase
	for i := 0; i < nv; i++ {
		w := []uint8{8, 32, 64}[r.Intn(3)]
		lim := mask(w)
		if r.Intn(3) > 0 && lim > 70000 {
			lim = 70000
		}
		var ivs []Iv
		wide := r.Intn(4) == 0 && w > 8
		at := uint64(r.Intn(50))
		if r.Intn(8) == 0 && w > 8 {
			at = lim - uint64(r.Intn(300))
		}
		for k := 1 + r.Intn(3); k > 0 && at < lim-310; k-- {
			e := min(at+uint64(r.Intn(100)), lim)
			if wide {
				e = min(at+uint64(r.Intn(200000)), lim)
			}
			ivs = append(ivs, Iv{at, e})
			at = e + 2 + uint64(r.Intn(30))
			if at > lim-400 || w == 8 && at > 200 {
				break
			}
		}
		if len(ivs) == 0 {
			ivs = []Iv{{lim - 300&(lim/2), lim - 300&(lim/2) + 100&(lim/2)}}
		}
		v := c.NewVar(fmt.Sprint("v", i), w, ivs)
		if wide || r.Intn(4) == 0 {
			v.tab = false
		}
		vars = append(vars, v)
		d := ivs
		if r.Intn(3) == 0 { // narrowed by the path
			x := ivs[r.Intn(len(ivs))]
			lo := x.lo + uint64(r.Int63n(int64(x.hi-x.lo)+1))
			d = []Iv{{lo, x.hi}}
			c.dom[v.id] = d
		}
		tc := tcase{t: v.term}
		for k := range asg {
			x := d[r.Intn(len(d))]
			y := x.lo + uint64(r.Int63n(int64(x.hi-x.lo)+1))
			if r.Intn(4) == 0 {
				y = x.hi
			}
			asg[k][v] = y
			tc.val = append(tc.val, y)
		}
		pool = append(pool, tc)
	}
	var bools []tcase
	var trace []string
	check := func(what string, x tcase, w uint8) string {
		trace = append(trace, fmt.Sprintf("%s=%s", what, tstr(x.t)))
		if x.t.w != w {
			return fmt.Sprintf("width %d, not %d after %v", x.t.w, w, trace)
		}
		for k := range asg {
			got := eval(x.t, func(v *Var) uint64 { return asg[k][v] }, map[*Term]uint64{})
			if got != x.val[k] {
				return fmt.Sprintf("%v: %v gives %d, not %d (vars %v init %v dom %v)", trace, x.t, got, x.val[k], asg[k], vars[0].init, c.dom)
			}
			if w > 0 {
				if lo, hi, ok := c.srange(x.t); ok && (sext(got, w) < lo || sext(got, w) > hi) {
					return fmt.Sprintf("%v: srange [%d,%d] misses %d", trace, lo, hi, sext(got, w))
				}
				if lo, hi, ok := c.urange(x.t); ok && (got < lo || got > hi) {
					return fmt.Sprintf("%v: urange [%d,%d] misses %d", trace, lo, hi, got)
				}
			} else if x.t.v != nil && !x.t.multi {
				if ts, ok := c.truthSet(x.t); ok && ivHas(ts, asg[k][x.t.v]) != (got != 0) {
					return fmt.Sprintf("%v: truth set %v wrong at %d", trace, ts, asg[k][x.t.v])
				}
			}
		}
		return ""
	}
	konst := func(w uint8) uint64 {
		switch r.Intn(6) {
		case 0:
			return uint64(r.Intn(10)) & mask(w)
		case 1:
			return -uint64(r.Intn(10)) & mask(w)
		case 2:
			return uint64(1) << r.Intn(int(w))
		case 3:
			return r.Uint64() & mask(w)
		case 4:
			return uint64(r.Intn(300)) & mask(w)
		}
		return []uint64{10, 100, 60, 3600, 365, 4, 400, 128, 0x3f, 0xff}[r.Intn(10)] & mask(w)
	}
	for step := 0; step < 14; step++ {
		x := pool[r.Intn(len(pool))]
		w := x.t.w
		// second operand of the same width
		y := tcase{}
		for _, j := range r.Perm(len(pool)) {
			if pool[j].t.w == w {
				y = pool[j]
				break
			}
		}
		if r.Intn(2) == 0 {
			k := konst(w)
			y = tcase{t: c.Const(k, w)}
			for range asg {
				y.val = append(y.val, k)
			}
		}
		out := tcase{}
		apply := func(f func(a, b uint64) uint64) {
			for k := range asg {
				out.val = append(out.val, f(x.val[k], y.val[k])&mask(out.t.w))
			}
		}
		what := ""
		switch op := r.Intn(14); op {
		case 0:
			out.t = c.Add(x.t, y.t)
			apply(func(a, b uint64) uint64 { return a + b })
			what = "add"
		case 1:
			out.t = c.Sub(x.t, y.t)
			apply(func(a, b uint64) uint64 { return a - b })
			what = "sub"
		case 2:
			out.t = c.Mul(x.t, y.t)
			apply(func(a, b uint64) uint64 { return a * b })
			what = "mul"
		case 3, 4:
			if !isC(y.t) || y.t.k == 0 {
				continue
			}
			s, rem := r.Intn(2) == 0, r.Intn(2) == 0
			out.t = c.Div(x.t, y.t, s, rem)
			apply(func(a, b uint64) uint64 { return foldDiv(a, b, w, s, rem) })
			what = fmt.Sprint("div ", y.t.k, s, rem)
		case 5:
			o := []Op{OpAnd, OpOr, OpXor}[r.Intn(3)]
			out.t = c.Bit(o, x.t, y.t)
			apply(func(a, b uint64) uint64 { return foldBit(o, a, b, w) })
			what = fmt.Sprint("bit", o)
		case 6:
			o := []Op{OpShl, OpLShr, OpAShr}[r.Intn(3)]
			k := uint64(r.Intn(int(w)))
			y = tcase{t: c.Const(k, w)}
			for range asg {
				y.val = append(y.val, k)
			}
			out.t = c.Bit(o, x.t, y.t)
			apply(func(a, b uint64) uint64 { return foldBit(o, a, b, w) })
			what = fmt.Sprint("shift", o, k)
		case 7:
			nw := []uint8{8, 32, 64}[r.Intn(3)]
			switch {
			case nw < w:
				out.t = c.Trunc(x.t, nw)
				apply(func(a, b uint64) uint64 { return a })
				what = "trunc"
			case r.Intn(2) == 0:
				out.t = c.ZExt(x.t, nw)
				apply(func(a, b uint64) uint64 { return a })
				what = "zext"
			default:
				out.t = c.SExt(x.t, nw)
				apply(func(a, b uint64) uint64 { return uint64(sext(a, w)) })
				what = "sext"
			}
		case 8:
			if len(bools) == 0 {
				continue
			}
			b := bools[r.Intn(len(bools))]
			out.t = c.Ite(b.t, x.t, y.t)
			for k := range asg {
				if b.val[k] != 0 {
					out.val = append(out.val, x.val[k])
				} else {
					out.val = append(out.val, y.val[k])
				}
			}
			what = "ite"
		case 9, 10, 11:
			switch r.Intn(3) {
			case 0:
				out.t = c.Eq(x.t, y.t)
				apply1(&out, x, y, func(a, b uint64) bool { return a == b })
				what = "eq"
			case 1:
				out.t = c.Ult(x.t, y.t)
				apply1(&out, x, y, func(a, b uint64) bool { return a < b })
				l1, h1, o1 := c.urange(x.t)
				l2, h2, o2 := c.urange(y.t)
				what = fmt.Sprint("ult ", tstr(x.t), tstr(y.t), l1, h1, o1, l2, h2, o2)
			default:
				out.t = c.Slt(x.t, y.t)
				apply1(&out, x, y, func(a, b uint64) bool { return sext(a, w) < sext(b, w) })
				what = "slt"
			}
			if m := check(what, out, 0); m != "" {
				return m
			}
			bools = append(bools, out)
			continue
		default:
			if len(bools) == 0 {
				continue
			}
			a, b := bools[r.Intn(len(bools))], bools[r.Intn(len(bools))]
			switch r.Intn(3) {
			case 0:
				out.t = c.And(a.t, b.t)
				apply1(&out, a, b, func(a, b uint64) bool { return a&b != 0 })
			case 1:
				out.t = c.Or(a.t, b.t)
				apply1(&out, a, b, func(a, b uint64) bool { return a|b != 0 })
			default:
				out.t = c.Not(a.t)
				apply1(&out, a, b, func(a, b uint64) bool { return a == 0 })
			}
			if m := check("bool", out, 0); m != "" {
				return m
			}
			bools = append(bools, out)
			continue
		}
		if m := check(what, out, out.t.w); m != "" {
			return m
		}
		pool = append(pool, out)
	}
	return ""
}

func apply1(out *tcase, x, y tcase, f func(a, b uint64) bool) {
	for k := range x.val {
		out.val = append(out.val, b2u(f(x.val[k], y.val[k])))
	}
}

func tstr(t *Term) string {
	if t == nil {
		return "-"
	}
	switch t.op {
	case OpConst:
		return fmt.Sprintf("%d:%d", t.k, t.w)
	case OpVar:
		return fmt.Sprintf("%s:%d", t.v.name, t.w)
	case OpLin:
		s := "lin("
		for _, l := range t.lin {
			s += fmt.Sprintf("%d*%s+", l.c, tstr(l.t))
		}
		return s + fmt.Sprintf("%d):%d", t.k, t.w)
	case OpIn:
		return fmt.Sprintf("%s in %v", t.v.name, t.ivs)
	}
	return fmt.Sprintf("op%d(%s,%s,%s):%d", t.op, tstr(t.a), tstr(t.b), tstr(t.c), t.w)
}
