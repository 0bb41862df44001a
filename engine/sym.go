package main

import (
	"bufio"
	"fmt"
	"io"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

// quick decides a condition from the current variable domains alone:
// 1 true, -1 false, 0 unknown.
func (m *M) quick(t *Term) int {
	switch t.op {
	case OpConst:
		if t.k != 0 {
			return 1
		}
		return -1
	case OpIn:
		d := m.tc.dom[t.v.id]
		x := ivIntersect(d, t.ivs)
		if len(x) == 0 {
			return -1
		}
		if ivEqual(x, d) {
			return 1
		}
		return 0
	case OpBAnd:
		a := m.quick(t.a)
		if a == -1 {
			return -1
		}
		b := m.quick(t.b)
		if b == -1 {
			return -1
		}
		if a == 1 && b == 1 {
			return 1
		}
		if d, ok := m.conjDoms(t); ok && d == nil {
			return -1
		}
	case OpBOr:
		a := m.quick(t.a)
		if a == 1 {
			return 1
		}
		b := m.quick(t.b)
		if b == 1 {
			return 1
		}
		if a == -1 && b == -1 {
			return -1
		}
	case OpBNot:
		return -m.quick(t.a)
	}
	for _, c := range m.tc.cons {
		if c == t {
			return 1
		}
		if c.op == OpBNot && c.a == t || t.op == OpBNot && t.a == c {
			return -1
		}
	}
	return 0
}

func conjuncts(t *Term, f func(*Term)) {
	if t.op == OpBAnd {
		conjuncts(t.a, f)
		conjuncts(t.b, f)
		return
	}
	f(t)
}

// conjDoms intersects the one-variable conjuncts of t with the domains; a nil
// map means that one domain became empty.
func (m *M) conjDoms(t *Term) (map[*Var][]Iv, bool) {
	doms := map[*Var][]Iv{}
	empty := false
	conjuncts(t, func(x *Term) {
		if x.op != OpIn {
			return
		}
		d, ok := doms[x.v]
		if !ok {
			d = m.tc.dom[x.v.id]
		}
		d = ivIntersect(d, x.ivs)
		doms[x.v] = d
		if len(d) == 0 {
			empty = true
		}
	})
	if empty {
		return nil, true
	}
	return doms, true
}

// needsSolver tells whether the feasibility of t under the path condition
// cannot be read off the domains.
func (m *M) needsSolver(t *Term) bool {
	r := false
	conjuncts(t, func(x *Term) {
		if x.op != OpIn || m.tc.inCon[x.v.id] {
			r = true
		}
	})
	return r
}

func (m *M) feasible(t *Term) bool {
	switch m.quick(t) {
	case -1:
		return false
	case 1:
		return true
	}
	if !m.needsSolver(t) {
		return true
	}
	r := m.sol.check(m.tc, t)
	if r == "unknown" {
		m.path.unknown = true
		return true
	}
	return r == "sat"
}

// assume adds t to the path condition.
func (m *M) assume(t *Term) {
	conjuncts(t, func(x *Term) {
		if x.op == OpConst {
			if x.k == 0 {
				m.abort("infeasible", "false assumption")
			}
			return
		}
		if x.op == OpIn {
			d := ivIntersect(m.tc.dom[x.v.id], x.ivs)
			if len(d) == 0 {
				m.abort("infeasible", "empty domain")
			}
			m.tc.dom[x.v.id] = d
			return
		}
		switch m.quick(x) {
		case 1:
			return
		case -1:
			m.abort("infeasible", "false constraint")
		}
		m.tc.cons = append(m.tc.cons, x)
		vs := map[*Var]bool{}
		termVars(x, map[*Term]bool{}, vs)
		for v := range vs {
			m.tc.inCon[v.id] = true
		}
	})
}

// branch decides a boolean term, forking if both ways are possible.
func (m *M) branch(c *Term) bool {
	if isC(c) {
		return c.k != 0
	}
	return m.decide([]*Term{c, m.tc.Not(c)}, nil) == 0
}

func (m *M) branchV(v V) bool {
	if v.p == nil {
		return v.n != 0
	}
	return m.branch(v.p.(*Term))
}

// decide picks one of mutually exclusive, exhaustive alternatives.
func (m *M) decide(conds []*Term, fr *Frame) int {
	cand := make([]int, 0, len(conds))
	for i, c := range conds {
		switch m.quick(c) {
		case 1:
			return i
		case 0:
			cand = append(cand, i)
		}
	}
	if len(cand) == 1 {
		m.assume(conds[cand[0]])
		return cand[0]
	}
	if len(cand) == 0 {
		m.abort("infeasible", "no alternative")
	}
	if m.spec {
		panic(specAbort{})
	}
	if m.epoch == 0 {
		panic(engErr("symbolic decision outside a path"))
	}
	if m.dpos < len(m.prefix) {
		k := int(m.prefix[m.dpos])
		m.dpos++
		m.dec = append(m.dec, uint64(k))
		m.assume(conds[k])
		return k
	}
	pick := -1
	for _, i := range cand {
		if !m.feasible(conds[i]) {
			continue
		}
		if pick < 0 {
			pick = i
			continue
		}
		m.forkOff(uint64(i))
	}
	if pick < 0 {
		m.abort("infeasible", "no feasible alternative")
	}
	m.dpos++
	m.dec = append(m.dec, uint64(pick))
	m.assume(conds[pick])
	return pick
}

func (m *M) forkOff(alt uint64) {
	p := make([]uint64, len(m.dec)+1)
	copy(p, m.dec)
	p[len(m.dec)] = alt
	m.nforks++
	if m.ex.profile != nil {
		m.ex.noteFork(m.where())
	}
	m.forks = append(m.forks, work{m.curTask, p, m.noCutPath})
}

const maxConc = 600

// concretize forks over the feasible values of t.
func (m *M) concretize(t *Term) uint64 {
	if isC(t) {
		return t.k
	}
	if m.spec {
		panic(specAbort{})
	}
	if m.dpos < len(m.prefix) {
		v := m.prefix[m.dpos]
		m.dpos++
		m.dec = append(m.dec, v)
		m.assume(m.tc.Eq(t, m.tc.Const(v, t.w)))
		return v
	}
	var vals []uint64
	if !t.multi && t.v != nil {
		d := m.tc.dom[t.v.id]
		if ivCount(d) <= 70000 {
			seen := map[uint64]bool{}
			for _, iv := range d {
				for x := iv.lo; ; x++ {
					r := eval(t, func(*Var) uint64 { return x }, map[*Term]uint64{})
					if !seen[r] {
						seen[r] = true
						vals = append(vals, r)
					}
					if x == iv.hi || len(vals) > maxConc {
						break
					}
				}
			}
			if len(vals) <= maxConc {
				out := vals[:0]
				for _, v := range vals {
					if m.feasible(m.tc.Eq(t, m.tc.Const(v, t.w))) {
						out = append(out, v)
					}
				}
				vals = out
			}
		}
	}
	if vals == nil {
		excl := m.tc.tTrue
		for len(vals) <= maxConc {
			r, asg := m.sol.model(m.tc, excl)
			if r == "unsat" {
				break
			}
			if r != "sat" {
				m.unsupported("solver gave no answer while enumerating values")
			}
			v := eval(t, func(x *Var) uint64 { return asg[x] }, map[*Term]uint64{})
			vals = append(vals, v)
			excl = m.tc.And(excl, m.tc.Not(m.tc.Eq(t, m.tc.Const(v, t.w))))
		}
	}
	if len(vals) == 0 {
		m.abort("infeasible", "no value")
	}
	if len(vals) > maxConc {
		m.unsupported("too many values to enumerate (%s)", m.where())
	}
	for _, v := range vals[1:] {
		m.forkOff(v)
	}
	m.dpos++
	m.dec = append(m.dec, vals[0])
	m.assume(m.tc.Eq(t, m.tc.Const(vals[0], t.w)))
	return vals[0]
}

func (m *M) concInt(v V, w uint8) uint64 {
	if v.p == nil {
		return v.n
	}
	return m.concretize(v.p.(*Term))
}

// --- solver -------------------------------------------------------------------

// Solver talks SMT-LIB to one z3 process.
type Solver struct {
	cmd  *exec.Cmd
	in   io.WriteCloser
	out  *bufio.Reader
	bin  string
	log  *strings.Builder
	defd map[*Term]string
	vars int
	cons int
	dec  map[*Var]bool
	open bool
	pend string // sent with the next query
	head string // ends the last path that asked anything
	doms []Iv

	nq, nsat, nunsat, nunk int
	rng                    uint64
	dur                    time.Duration
}

func newSolver(bin string) *Solver {
	s := &Solver{bin: bin, rng: uint64(envSeed()) + 1}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, "-in", "-t:20000")
	s.in, _ = s.cmd.StdinPipe()
	o, _ := s.cmd.StdoutPipe()
	s.out = bufio.NewReaderSize(o, 1<<16)
	if err := s.cmd.Start(); err != nil {
		panic(engErr("cannot start %s: %v", s.bin, err))
	}
	s.open = false
	s.begin()
}

func (s *Solver) close() {
	s.in.Close()
	s.cmd.Wait()
}

// begin starts a new path.
func (s *Solver) begin() {
	// what ends the last path that asked anything is still to be sent when the
	// paths since then asked nothing
	if s.open {
		s.head = s.pend + "(pop)\n"
	}
	s.log = &strings.Builder{}
	s.log.WriteString(s.head)
	s.pend = ""
	s.log.WriteString("(push)\n")
	s.open = false
	s.defd = map[*Term]string{}
	s.dec = map[*Var]bool{}
	s.cons = 0
}

func bv(x uint64, w uint8) string {
	return "(_ bv" + strconv.FormatUint(x&mask(w), 10) + " " + strconv.Itoa(int(w)) + ")"
}

func ivsSMT(name string, w uint8, ivs []Iv) string {
	if len(ivs) == 0 {
		return "false"
	}
	var sb strings.Builder
	if len(ivs) > 1 {
		sb.WriteString("(or")
	}
	for _, iv := range ivs {
		if len(ivs) > 1 {
			sb.WriteByte(' ')
		}
		if iv.lo == iv.hi {
			fmt.Fprintf(&sb, "(= %s %s)", name, bv(iv.lo, w))
		} else {
			fmt.Fprintf(&sb, "(and (bvule %s %s) (bvule %s %s))", bv(iv.lo, w), name, name, bv(iv.hi, w))
		}
	}
	if len(ivs) > 1 {
		sb.WriteString(")")
	}
	return sb.String()
}

func vname(v *Var) string { return "v" + strconv.Itoa(v.id) }

func (s *Solver) declare(v *Var) {
	if s.dec[v] {
		return
	}
	s.dec[v] = true
	fmt.Fprintf(s.log, "(declare-const %s (_ BitVec %d))\n", vname(v), v.w)
}

// expr returns the SMT-LIB text of t, defining shared subterms.
func (s *Solver) expr(t *Term) string {
	if t.op == OpConst {
		if t.w == 0 {
			if t.k != 0 {
				return "true"
			}
			return "false"
		}
		return bv(t.k, t.w)
	}
	if d, ok := s.defd[t]; ok {
		return d
	}
	var e string
	b2 := func(op string) string { return "(" + op + " " + s.expr(t.a) + " " + s.expr(t.b) + ")" }
	switch t.op {
	case OpVar:
		s.declare(t.v)
		return vname(t.v)
	case OpPW:
		s.declare(t.v)
		var sb strings.Builder
		n := vname(t.v)
		for _, p := range t.pcs[:len(t.pcs)-1] {
			fmt.Fprintf(&sb, "(ite %s %s ", ivsSMT(n, t.v.w, []Iv{{p.lo, p.hi}}), bv(p.val, t.w))
		}
		sb.WriteString(bv(t.pcs[len(t.pcs)-1].val, t.w))
		sb.WriteString(strings.Repeat(")", len(t.pcs)-1))
		e = sb.String()
	case OpIn:
		s.declare(t.v)
		e = ivsSMT(vname(t.v), t.v.w, t.ivs)
	case OpLin:
		var sb strings.Builder
		sb.WriteString("(bvadd " + bv(t.k, t.w))
		for _, l := range t.lin {
			if l.c == 1 {
				sb.WriteString(" " + s.expr(l.t))
			} else {
				sb.WriteString(" (bvmul " + bv(l.c, t.w) + " " + s.expr(l.t) + ")")
			}
		}
		sb.WriteString(")")
		e = sb.String()
	case OpMul:
		e = b2("bvmul")
	case OpUDiv:
		e = b2("bvudiv")
	case OpSDiv:
		e = b2("bvsdiv")
	case OpURem:
		e = b2("bvurem")
	case OpSRem:
		e = b2("bvsrem")
	case OpAnd:
		e = b2("bvand")
	case OpOr:
		e = b2("bvor")
	case OpXor:
		e = b2("bvxor")
	case OpShl:
		e = b2("bvshl")
	case OpLShr:
		e = b2("bvlshr")
	case OpAShr:
		e = b2("bvashr")
	case OpEq:
		e = b2("=")
	case OpUlt:
		e = b2("bvult")
	case OpSlt:
		e = b2("bvslt")
	case OpBAnd:
		e = b2("and")
	case OpBOr:
		e = b2("or")
	case OpBNot:
		e = "(not " + s.expr(t.a) + ")"
	case OpZExt:
		e = fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, s.expr(t.a))
	case OpSExt:
		e = fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, s.expr(t.a))
	case OpTrunc:
		e = fmt.Sprintf("((_ extract %d 0) %s)", t.w-1, s.expr(t.a))
	case OpIte:
		e = "(ite " + s.expr(t.a) + " " + s.expr(t.b) + " " + s.expr(t.c) + ")"
	default:
		panic(engErr("smt of op %d", t.op))
	}
	n := "t" + strconv.Itoa(int(t.id))
	sort := "Bool"
	if t.w > 0 {
		sort = fmt.Sprintf("(_ BitVec %d)", t.w)
	}
	fmt.Fprintf(s.log, "(define-fun %s () %s %s)\n", n, sort, e)
	s.defd[t] = n
	return n
}

// sync writes the path condition (multi-variable constraints asserted for
// good; domains only grow tighter, so they are asserted within the query).
func (s *Solver) sync(tc *TermCtx) {
	for ; s.cons < len(tc.cons); s.cons++ {
		e := s.expr(tc.cons[s.cons])
		fmt.Fprintf(s.log, "(assert %s)\n", e)
	}
}

func (s *Solver) query(tc *TermCtx, t *Term, model bool) (string, map[*Var]uint64) {
	s.sync(tc)
	e := s.expr(t)
	// A variable no constraint mentions is independent of the rest: beyond the
	// first few, its value is read off its domain instead of being sent.
	extra := 0
	var sent []*Var
	for _, v := range tc.vars {
		if !s.dec[v] {
			if extra >= maxFree || ivSingle(tc.dom[v.id]) {
				continue
			}
			extra++
			s.declare(v)
		}
		sent = append(sent, v)
	}
	s.log.WriteString("(push)\n")
	for _, v := range sent {
		fmt.Fprintf(s.log, "(assert %s)\n", ivsSMT(vname(v), v.w, tc.dom[v.id]))
	}
	fmt.Fprintf(s.log, "(assert %s)\n(check-sat)\n(echo \"@\")\n", e)
	start := time.Now()
	io.WriteString(s.in, s.log.String())
	s.log.Reset()
	s.pend, s.head = "", ""
	s.open = true
	res := ""
	for {
		ln, err := s.out.ReadString('\n')
		if err != nil {
			panic(engErr("solver died: %v", err))
		}
		ln = strings.TrimSpace(ln)
		if ln == "@" {
			break
		}
		if strings.HasPrefix(ln, "(error") {
			panic(engErr("solver: %s", ln))
		}
		res = ln
	}
	s.nq++
	switch res {
	case "sat":
		s.nsat++
	case "unsat":
		s.nunsat++
	default:
		res = "unknown"
		s.nunk++
	}
	var asg map[*Var]uint64
	if model && res == "sat" {
		asg = map[*Var]uint64{}
		for _, v := range tc.vars {
			if !s.dec[v] {
				asg[v] = s.pick(tc.dom[v.id])
			}
		}
		if len(sent) > 0 {
			var q strings.Builder
			q.WriteString("(get-value (")
			for _, v := range sent {
				q.WriteString(vname(v))
				q.WriteByte(' ')
			}
			q.WriteString("))\n(echo \"@\")\n")
			io.WriteString(s.in, q.String())
			k := 0
			for {
				ln, err := s.out.ReadString('\n')
				if err != nil {
					panic(engErr("solver died: %v", err))
				}
				if strings.TrimSpace(ln) == "@" {
					break
				}
				if k < len(sent) {
					asg[sent[k]] = parseBV(ln)
				}
				k++
			}
			if k != len(sent) {
				panic(engErr("solver gave %d values for %d variables", k, len(sent)))
			}
		}
	}
	s.dur += time.Since(start)
	s.pend = "(pop)\n"
	s.log.WriteString(s.pend)
	return res, asg
}

// maxFree bounds the unconstrained variables sent along with a query.
const maxFree = 4

func ivSingle(d []Iv) bool { return len(d) == 1 && d[0].lo == d[0].hi }

// pick is any element of a domain.
func (s *Solver) pick(d []Iv) uint64 {
	s.rng = s.rng*6364136223846793005 + 1442695040888963407
	iv := d[int((s.rng>>40)%uint64(len(d)))]
	n := iv.hi - iv.lo + 1
	if n == 0 {
		return iv.lo
	}
	return iv.lo + (s.rng>>33)%n
}

func parseBV(ln string) uint64 {
	if i := strings.Index(ln, "#x"); i >= 0 {
		x, _ := strconv.ParseUint(strings.Trim(ln[i+2:], ") \n"), 16, 64)
		return x
	}
	if i := strings.Index(ln, "#b"); i >= 0 {
		x, _ := strconv.ParseUint(strings.Trim(ln[i+2:], ") \n"), 2, 64)
		return x
	}
	panic(engErr("solver value: %q", ln))
}

func (s *Solver) check(tc *TermCtx, t *Term) string {
	r, _ := s.query(tc, t, false)
	return r
}

func (s *Solver) model(tc *TermCtx, t *Term) (string, map[*Var]uint64) {
	return s.query(tc, t, true)
}
