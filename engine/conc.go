package main

import (
	"bytes"
	"fmt"
	"go/types"
	"os/exec"
	"sort"
	"strings"
	"sync"
	"time"
)

// Predictive analysis of two calls made one after the other on a path: what
// each does to memory the other can reach is recorded with the locks, once
// bodies and atomic operations around it; the positions of these events in an
// interleaving are then integer variables, and z3 decides whether some schedule
// that keeps the program order, the locks and the reads of synchronised values
// puts two conflicting accesses side by side (a data race), or lets the other
// call overwrite what this one wrote before it reads it back (interference).

type cKind uint8

const (
	cRead cKind = iota
	cWrite
	cAtomicR
	cAtomicW
	cAcq
	cRel
	cOnceEnd // end of the body of a once, in the call that ran it
	cOnceRet // return of Do
	cPut
	cGet
)

type cKey struct {
	p   any // *Obj or *Map
	off int
}

type cLock struct {
	key    cKey
	shared bool
	acq    int // index of the acquiring event
	rel    int // index of the releasing event, -1 while held
}

type cEvent struct {
	call  int
	kind  cKind
	key   cKey
	locks []*cLock
	rf    int // event read from, -1 if none recorded
	where string
}

type conc struct {
	warm  bool // recording the warm-up: package variables only
	call  int
	off   int // suspended when positive
	ev    []cEvent
	held  []*cLock
	seen  map[seenKey]bool
	last  map[cKey]int // last write
	base  int          // events of the warm-up
	edges [][2]int     // ordered pairs of events, see hb
}

type seenKey struct {
	k    cKey
	kind cKind
	call int
	w    string
}

func (c *conc) reset() {
	c.seen = map[seenKey]bool{}
	c.held = c.held[:0]
	c.off = 0
}

func (m *M) concWhere() (string, bool) {
	for i := m.depth - 1; i >= 0; i-- {
		if i < len(m.frames) && m.frames[i].fn != nil {
			n := m.frames[i].fn.name
			return n, strings.HasPrefix(n, "(*sync.") || strings.HasPrefix(n, "sync.") || strings.HasPrefix(n, "(*internal/sync.") || strings.HasPrefix(n, "(*sync/atomic.") || strings.HasPrefix(n, "internal/sync.")
		}
	}
	return "", false
}

// access records a read or write of n cells.
func (m *M) access(p any, off, n int, epoch uint32, esc, global, write bool) {
	c := m.conc
	if c.off > 0 || !(epoch < m.epoch || esc || c.warm && global) || c.warm && !global {
		return
	}
	w, inSync := m.concWhere()
	k := cRead
	switch {
	case inSync && write:
		k = cAtomicW
	case inSync:
		k = cAtomicR
	case write:
		k = cWrite
	}
	for i := 0; i < n; i++ {
		key := cKey{p, off + i}
		sk := seenKey{key, k, c.call, w}
		if c.seen[sk] {
			continue
		}
		c.seen[sk] = true
		rf := -1
		if !write {
			if x, ok := c.last[key]; ok {
				rf = x
			}
		}
		id := m.concAdd(cEvent{kind: k, key: key, where: w, rf: rf})
		if write {
			c.last[key] = id
		}
	}
}

func (m *M) concAdd(e cEvent) int {
	c := m.conc
	e.call = c.call
	e.locks = append([]*cLock(nil), c.held...)
	if e.kind != cRead && e.kind != cAtomicR {
		e.rf = -1
	}
	if len(c.ev) > 200000 {
		m.abort("limit", "shared accesses")
	}
	c.ev = append(c.ev, e)
	return len(c.ev) - 1
}

// atomicAcc records an atomic operation.
func (m *M) atomicAcc(p V, write bool) {
	c := m.conc
	o, ok := p.p.(*Obj)
	if !ok || c.off > 0 || !(o.epoch < m.epoch || o.esc || c.warm && o.site != "") {
		return
	}
	k, rf := cAtomicR, -1
	key := cKey{o, int(p.n)}
	if x, ok := c.last[key]; ok {
		rf = x
	}
	if write {
		k = cAtomicW
	}
	c.seen = map[seenKey]bool{}
	w, _ := m.concWhere()
	id := m.concAdd(cEvent{kind: k, key: key, where: w, rf: rf})
	if write {
		c.last[key] = id
	}
}

// acc records an access to an object.
func (m *M) acc(o *Obj, off, n int, write bool) {
	m.access(o, off, n, o.epoch, o.esc, o.site != "", write)
}

func (m *M) accMap(mp *Map, write bool) {
	if mp != nil {
		m.access(mp, 0, 1, mp.epoch, mp.esc, false, write)
	}
}

// escape marks everything reachable from v, once it is stored where another
// call can find it.
func (m *M) escape(v V) {
	switch x := v.p.(type) {
	case *Obj:
		m.escObj(x)
	case *SymPtr:
		m.escObj(x.o)
	case *Slice:
		m.escObj(x.o)
	case *Iface:
		m.escape(x.v)
	case *Closure:
		for _, b := range x.binds {
			m.escape(b)
		}
	case *Agg:
		for _, b := range x.c {
			m.escape(b)
		}
	case *Tuple:
		for _, b := range x.v {
			m.escape(b)
		}
	case *Map:
		if x.esc || x.epoch < 2 {
			return
		}
		x.esc = true
		for _, e := range x.ents {
			m.escape(e.k)
			m.escape(e.v)
		}
	}
}

func (m *M) escObj(o *Obj) {
	if o == nil || o.esc || o.epoch < 2 {
		return
	}
	o.esc = true
	for _, v := range o.cells {
		if v.p != nil {
			m.escape(v)
		}
	}
}

func (m *M) escStore(o *Obj, v V) {
	if (o.epoch < m.epoch || o.esc) && v.p != nil && m.conc.off == 0 && !m.conc.warm {
		m.escape(v)
	}
}

func keyOf(p V) (cKey, bool) {
	o, ok := p.p.(*Obj)
	return cKey{o, int(p.n)}, ok
}

func (m *M) lockOp(p V, acquire, shared bool) {
	c := m.conc
	if !m.crec || c.off > 0 {
		return
	}
	if _, inSync := m.concWhere(); inSync {
		return
	}
	k, ok := keyOf(p)
	if !ok {
		return
	}
	c.seen = map[seenKey]bool{}
	if acquire {
		id := m.concAdd(cEvent{kind: cAcq, key: k})
		c.held = append(c.held, &cLock{k, shared, id, -1})
		return
	}
	for i := len(c.held) - 1; i >= 0; i-- {
		if l := c.held[i]; l.key == k && l.shared == shared {
			l.rel = m.concAdd(cEvent{kind: cRel, key: k})
			c.held = append(c.held[:i:i], c.held[i+1:]...)
			return
		}
	}
}

func (m *M) syncEvent(kind cKind, p any, off int) {
	c := m.conc
	if !m.crec || c.off > 0 {
		return
	}
	c.seen = map[seenKey]bool{}
	m.concAdd(cEvent{kind: kind, key: cKey{p, off}})
}

// --- queries --------------------------------------------------------------------

type smtCache struct {
	mu  sync.Mutex
	res map[string]string
	n   int
	dur time.Duration
}

var schedQueries = smtCache{res: map[string]string{}}

func (q *smtCache) ask(text string) string {
	q.mu.Lock()
	r, ok := q.res[text]
	q.mu.Unlock()
	if ok {
		return r
	}
	t := time.Now()
	cmd := exec.Command(solverBin, "-in", "-T:20")
	cmd.Stdin = strings.NewReader(text)
	var out bytes.Buffer
	cmd.Stdout = &out
	cmd.Run()
	r = strings.TrimSpace(out.String())
	q.mu.Lock()
	q.res[text] = r
	q.n++
	q.dur += time.Since(t)
	q.mu.Unlock()
	return r
}

// sched is the encoding of the possible schedules around a few events.
type sched struct {
	c    *conc
	need map[int]bool
	cons []string
}

func pos(i int) string { return fmt.Sprintf("p%d", i) }

func (s *sched) before(a, b int) {
	s.need[a], s.need[b] = true, true
	s.cons = append(s.cons, fmt.Sprintf("(< %s %s)", pos(a), pos(b)))
}

// end gives the releasing event; locks held to the end of the call are
// released after everything else.
func (s *sched) region(l *cLock, e int) {
	s.before(l.acq, e)
	if l.rel >= 0 {
		s.before(e, l.rel)
	}
}

func (s *sched) exclude(x, y *cLock) {
	if x.key != y.key || x.shared && y.shared {
		return
	}
	s.need[x.acq], s.need[y.acq] = true, true
	var alt []string
	if x.rel >= 0 {
		s.need[x.rel] = true
		alt = append(alt, fmt.Sprintf("(< %s %s)", pos(x.rel), pos(y.acq)))
	}
	if y.rel >= 0 {
		s.need[y.rel] = true
		alt = append(alt, fmt.Sprintf("(< %s %s)", pos(y.rel), pos(x.acq)))
	}
	switch len(alt) {
	case 0:
		s.cons = append(s.cons, "false")
	case 1:
		s.cons = append(s.cons, alt[0])
	default:
		s.cons = append(s.cons, "(or "+alt[0]+" "+alt[1]+")")
	}
}

// build adds the constraints between the events asked about.
func (s *sched) build(events []int) {
	ev := s.c.ev
	for _, e := range events {
		s.need[e] = true
	}
	for i, a := range events {
		for _, la := range ev[a].locks {
			s.region(la, a)
		}
		for _, b := range events[i+1:] {
			if ev[a].call == ev[b].call {
				continue
			}
			for _, la := range ev[a].locks {
				for _, lb := range ev[b].locks {
					s.exclude(la, lb)
				}
			}
		}
	}
	// once bodies, values read under synchronisation, pooled objects
	calls := map[int]bool{}
	for _, e := range events {
		calls[ev[e].call] = true
	}
	for _, h := range s.c.edges {
		if calls[ev[h[0]].call] && calls[ev[h[1]].call] {
			// only edges that bear on one of the events
			rel0, rel1 := false, false
			for _, e := range events {
				rel0 = rel0 || ev[e].call == ev[h[0]].call && e <= h[0]
				rel1 = rel1 || ev[e].call == ev[h[1]].call && e >= h[1]
			}
			if rel0 && rel1 {
				s.before(h[0], h[1])
			}
		}
	}
}

// hb lists the ordered pairs of events of different calls.
func (c *conc) hb() [][2]int {
	var out [][2]int
	onceEnd := map[cKey]int{}
	put := map[cKey]int{}
	for i, e := range c.ev {
		switch e.kind {
		case cOnceEnd:
			onceEnd[e.key] = i
		case cOnceRet:
			if x, ok := onceEnd[e.key]; ok && c.ev[x].call != e.call {
				out = append(out, [2]int{x, i})
			}
		case cPut:
			put[e.key] = i
		case cGet:
			if x, ok := put[e.key]; ok && c.ev[x].call != e.call {
				out = append(out, [2]int{x, i})
			}
		case cAtomicR:
			if e.rf >= 0 && c.ev[e.rf].call != e.call && c.ev[e.rf].kind == cAtomicW {
				out = append(out, [2]int{e.rf, i})
			}
		case cRead:
			if e.rf >= 0 && c.ev[e.rf].call != e.call && commonLock(e.locks, c.ev[e.rf].locks) {
				out = append(out, [2]int{e.rf, i})
			}
		}
	}
	return out
}

func commonLock(a, b []*cLock) bool {
	for _, x := range a {
		for _, y := range b {
			if x.key == y.key && !(x.shared && y.shared) {
				return true
			}
		}
	}
	return false
}

// text renders the query with the events renamed in order, so that alike
// situations give one query.
func (s *sched) text(goal ...string) string {
	var ids []int
	for i := range s.need {
		ids = append(ids, i)
	}
	sort.Ints(ids)
	var b strings.Builder
	rep := make([]string, 0, 2*len(ids))
	for n := len(ids) - 1; n >= 0; n-- {
		rep = append(rep, pos(ids[n])+" ", fmt.Sprintf("e%d ", n), pos(ids[n])+")", fmt.Sprintf("e%d)", n))
	}
	r := strings.NewReplacer(rep...)
	for n := range ids {
		fmt.Fprintf(&b, "(declare-const e%d Int)\n", n)
	}
	// program order
	lastOf := map[int]int{}
	for _, i := range ids {
		k := s.c.ev[i].call
		if p, ok := lastOf[k]; ok {
			fmt.Fprintf(&b, "(assert %s)\n", r.Replace(fmt.Sprintf("(< %s %s)", pos(p), pos(i))))
		}
		lastOf[k] = i
	}
	cons := append([]string(nil), s.cons...)
	for i := range cons {
		cons[i] = r.Replace(cons[i])
	}
	sort.Strings(cons)
	for i, x := range cons {
		if i == 0 || x != cons[i-1] {
			fmt.Fprintf(&b, "(assert %s)\n", x)
		}
	}
	for _, g := range goal {
		fmt.Fprintf(&b, "(assert %s)\n", r.Replace(g))
	}
	b.WriteString("(check-sat)\n")
	return b.String()
}

func isW(k cKind) bool { return k == cWrite || k == cAtomicW }

// decide runs the queries of the path and records their outcomes as checks.
func (m *M) concDecide() {
	c := m.conc
	c.edges = c.hb()
	byKey := map[cKey][]int{}
	var order []cKey
	written := map[cKey]bool{}
	for i, e := range c.ev {
		if e.kind > cAtomicW {
			continue
		}
		if byKey[e.key] == nil {
			order = append(order, e.key)
		}
		byKey[e.key] = append(byKey[e.key], i)
		if isW(e.kind) {
			written[e.key] = true
		}
	}
	found := map[string]bool{}
	add := func(msg, where, res string) {
		if res == "unsat" {
			m.path.checks = append(m.path.checks, check{msg: msg, cond: m.tc.tTrue})
			return
		}
		if res != "sat" {
			m.path.unknown = true
			return
		}
		if !found[msg+where] {
			found[msg+where] = true
			if m.ex.debug {
				fmt.Println(msg, where)
			}
			m.path.checks = append(m.path.checks, check{msg: msg, cond: m.tc.tFalse})
		}
	}
	const race, interf = "no two calls race for memory", "no call can overwrite what another one still needs"
	n := 0
	for _, k := range order {
		if !written[k] {
			continue
		}
		l := byKey[k]
		done := map[string]bool{}
		for i, a := range l {
			for _, b := range l[i+1:] {
				x, y := &c.ev[a], &c.ev[b]
				if x.call == y.call || !isW(x.kind) && !isW(y.kind) || x.kind >= cAtomicR && y.kind >= cAtomicR {
					continue
				}
				if n++; n > 4000 {
					m.path.unknown = true
					return
				}
				s := &sched{c: c, need: map[int]bool{}}
				s.build([]int{a, b})
				q := s.text(fmt.Sprintf("(or (= (+ %s 1) %s ) (= (+ %s 1) %s ))", pos(a), pos(b), pos(b), pos(a)))
				if done[q] {
					continue
				}
				done[q] = true
				add(race, fmt.Sprintf(" %s (%s) / %s (%s)", x.where, siteOf(k), y.where, siteOf(k)), schedQueries.ask(q))
			}
		}
		// written and read back by one call, written by another one
		for _, r := range l {
			e := &c.ev[r]
			if isW(e.kind) || e.rf < 0 || c.ev[e.rf].call != e.call || e.call == 0 {
				continue
			}
			for _, w := range l {
				o := &c.ev[w]
				if o.call == e.call || o.call == 0 || !isW(o.kind) {
					continue
				}
				if n++; n > 4000 {
					m.path.unknown = true
					return
				}
				s := &sched{c: c, need: map[int]bool{}}
				s.build([]int{e.rf, r, w})
				q := s.text(fmt.Sprintf("(< %s %s )", pos(e.rf), pos(w)), fmt.Sprintf("(< %s %s )", pos(w), pos(r)))
				if done[q] {
					continue
				}
				done[q] = true
				add(interf, fmt.Sprintf(" %s / %s (%s)", e.where, o.where, siteOf(k)), schedQueries.ask(q))
			}
		}
	}
	m.path.checks = append(m.path.checks, check{msg: race, cond: m.tc.tTrue})
}

func siteOf(k cKey) string {
	if o, ok := k.p.(*Obj); ok && o.site != "" {
		return fmt.Sprintf("%s+%d", o.site, k.off)
	}
	return fmt.Sprintf("%T+%d", k.p, k.off)
}

// concurrent is vp.Concurrent: two calls of f, recorded.
func (m *M) concurrent(fr *Frame, f *Closure) V {
	c := m.conc
	if m.crec {
		panic(engErr("nested vp.Concurrent"))
	}
	c.reset()
	c.ev = c.ev[:c.base]
	c.last = map[cKey]int{}
	for i, e := range c.ev {
		if isW(e.kind) {
			c.last[e.key] = i
		}
	}
	m.crec = true
	var out []V
	for i := 0; i < 2; i++ {
		c.call = i + 1
		m.epoch = uint32(i + 2)
		c.reset()
		out = append(out, m.callClosure(f, []V{vint(i)}, fr))
	}
	m.crec = false
	m.concDecide()
	return m.newSlice(out, 2, 1)
}

// poolEvent orders what happened before an element was put back before what
// happens after it is taken out.
func (m *M) poolEvent(kind cKind, v V) {
	if itf, ok := v.p.(*Iface); ok {
		switch x := itf.v.p.(type) {
		case *Slice:
			m.syncEvent(kind, x.o, 0)
		case *Obj, *Map:
			m.syncEvent(kind, x, 0)
		}
	}
}

// changed tells whether any cell differs from its zero value.
func changed(c []V) bool {
	for _, v := range c {
		if v.n != 0 || v.p != nil {
			return true
		}
	}
	return false
}

// --- sync.Map -------------------------------------------------------------------

// syncMapOp runs f on the ordinary map that stands for a sync.Map; the map as a
// whole counts as one atomic location.
func syncMapOp(write bool, f func(m *M, ti *TypeInfo, mp V, a []V) V) intrFn {
	return func(m *M, fr *Frame, a []V) V {
		e := types.NewInterfaceType(nil, nil)
		ti := m.p.typ(types.NewMap(e, e))
		o, ok := a[0].p.(*Obj)
		if !ok {
			m.rtPanic("invalid memory address or nil pointer dereference")
		}
		mp := V{p: o.cells[a[0].n].p}
		rec := m.crec
		if rec {
			m.atomicAcc(a[0], false)
			if write {
				m.atomicAcc(a[0], true)
				if o.epoch < m.epoch || o.esc {
					for _, v := range a[1:] {
						m.escape(v)
					}
				}
			}
			m.crec = false
		}
		if mp.p == nil {
			mp = V{p: &Map{idx: map[any]int{}, epoch: m.epoch}}
			m.cellStore(a[0], mp)
		}
		r := f(m, ti, mp, a)
		m.crec = rec
		return r
	}
}

func syncMapInit() {
	get := func(m *M, ti *TypeInfo, mp, k V) (V, V) {
		t := m.mapLookup(ti, mp, k, true).p.(*Tuple)
		return t.v[0], t.v[1]
	}
	s := "(*sync.Map)."
	reg(syncMapOp(false, func(m *M, ti *TypeInfo, mp V, a []V) V { return m.mapLookup(ti, mp, a[1], true) }), s+"Load")
	reg(syncMapOp(true, func(m *M, ti *TypeInfo, mp V, a []V) V { m.mapUpdate(ti, mp, a[1], a[2]); return V{} }), s+"Store")
	reg(syncMapOp(true, func(m *M, ti *TypeInfo, mp V, a []V) V { m.mapDelete(ti, mp, a[1]); return V{} }), s+"Delete")
	reg(syncMapOp(true, func(m *M, ti *TypeInfo, mp V, a []V) V {
		v, ok := get(m, ti, mp, a[1])
		if ok.n == 1 {
			return tuple(v, ok)
		}
		m.mapUpdate(ti, mp, a[1], a[2])
		return tuple(a[2], ok)
	}), s+"LoadOrStore")
	reg(syncMapOp(true, func(m *M, ti *TypeInfo, mp V, a []V) V {
		v, ok := get(m, ti, mp, a[1])
		m.mapDelete(ti, mp, a[1])
		return tuple(v, ok)
	}), s+"LoadAndDelete")
	reg(syncMapOp(true, func(m *M, ti *TypeInfo, mp V, a []V) V {
		v, ok := get(m, ti, mp, a[1])
		m.mapUpdate(ti, mp, a[1], a[2])
		return tuple(v, ok)
	}), s+"Swap")
}
