package main

import (
	"fmt"
	"os"
	"runtime/debug"
	"sort"
	"strings"
	"sync"
	"time"
)

// Task is one harness function to explore.
type Task struct {
	name string
	fn   *Fn

	mu        sync.Mutex
	Paths     int
	Infeas    int
	Assumed   int
	Unsup     map[string]int
	Limit     int
	Unknown   int
	Checks    int
	Trivial   int
	Steps     int64
	MaxSteps  int64
	Forks     int
	pending   int
	Dropped   int
	Wall      time.Duration
	start     time.Time
	witnesses []*Witness
	Cex       []*Witness
	Known     []*Witness
	nonvac    int
	noCut     bool
	Cut       int
	Recut     int
	Sums      int
	Real      int
	stack     []work
	used      int64
}

// Witness is one concrete input with what the engine expects to be observed.
type Witness struct {
	Harness string            `json:"harness"`
	Vals    map[string]uint64 `json:"vals"`
	Notes   []string          `json:"-"`
	Fails   []string          `json:"-"`
	Kind    string            `json:"-"`
	Clock   *int64            `json:"clock,omitempty"`
	Shown   []string          `json:"shown,omitempty"`
}

type note struct {
	name string
	v    V
	w    uint8
	str  bool
}

type check struct {
	msg   string
	cond  *Term
	known string
	kcond *Term
}

type pathState struct {
	checks   []check
	notes    []note
	unknown  bool
	picks    map[string]uint64
	clock    V
	hasClk   bool
	opts     map[string]bool
	known    []knownAttr
	cut      bool
	reach    bool
	panicMsg string
	raw      []rawName
	real     bool
	nsum     int
}

type rawName struct {
	name string
	v    V
}

type knownAttr struct {
	id   string
	cond *Term
}

type work struct {
	t      *Task
	prefix []uint64
	noCut  bool
}

type Explorer struct {
	p                      *Prog
	mu                     sync.Mutex
	cond                   *sync.Cond
	queued                 int
	rng                    uint64
	busy                   int
	deadline               time.Time
	profile                map[string]int
	initErr                map[string]string
	stop                   bool
	maxPaths               int
	tasks                  []*Task
	order                  string
	nq, nsat, nunsat, nunk int
	solver                 time.Duration
	debug                  bool
	deep                   bool
	maxWit                 int
	cexLimit               int
}

func (ex *Explorer) noteInit(p, msg string) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	if ex.initErr == nil {
		ex.initErr = map[string]string{}
	}
	ex.initErr[p] = msg
}

func (ex *Explorer) noteFork(w string) {
	ex.mu.Lock()
	ex.profile[w]++
	ex.mu.Unlock()
}

func (ex *Explorer) pushAll(ws []work) {
	if len(ws) == 0 {
		return
	}
	ex.mu.Lock()
	for _, w := range ws {
		w.t.stack = append(w.t.stack, w)
	}
	ex.queued += len(ws)
	ex.mu.Unlock()
	if len(ws) > 1 {
		ex.cond.Broadcast()
	} else {
		ex.cond.Signal()
	}
}

func (ex *Explorer) next() (work, bool) {
	ex.mu.Lock()
	defer ex.mu.Unlock()
	for {
		if ex.stop || time.Now().After(ex.deadline) {
			ex.stop = true
			ex.cond.Broadcast()
			return work{}, false
		}
		if ex.queued > 0 {
			// the harness with the least work so far, so that a large one
			// does not starve the others; within it any open branch, so that
			// what a run out of time leaves out is spread
			var t *Task
			for _, x := range ex.tasks {
				if len(x.stack) > 0 && (t == nil || x.used < t.used) {
					t = x
				}
			}
			n := len(t.stack)
			k := n - 1
			if t.used > int64(time.Second) {
				ex.rng = ex.rng*6364136223846793005 + 1442695040888963407
				k = int((ex.rng >> 33) % uint64(n))
			}
			w := t.stack[k]
			t.stack[k] = t.stack[n-1]
			t.stack = t.stack[:n-1]
			ex.queued--
			ex.busy++
			return w, true
		}
		if ex.busy == 0 {
			ex.cond.Broadcast()
			return work{}, false
		}
		ex.cond.Wait()
	}
}

func (ex *Explorer) done(t *Task, d time.Duration) {
	ex.mu.Lock()
	t.used += int64(d)
	ex.busy--
	if ex.busy == 0 && ex.queued == 0 {
		ex.cond.Broadcast()
	}
	ex.mu.Unlock()
}

func newM(p *Prog, ex *Explorer, id int) *M {
	m := &M{p: p, ex: ex, id: id, tc: NewTermCtx(), stack: make([]V, stackSize), limit: 1 << 62}
	m.enc = map[*Term]encOrigin{}
	m.path = &pathState{}
	m.atn = newATNState()
	m.conc = &conc{}
	return m
}

// warmup initialises the packages and runs the given function concretely, so
// that lazily built shared state exists before paths start.
func (m *M) warmup(f *Fn) (err error) {
	defer func() {
		if x := recover(); x != nil {
			err = fmt.Errorf("warm-up: %v%s\n%s", showPanic(x), m.where(), debug.Stack())
		}
	}()
	m.epoch = 0
	m.warm = true
	m.sol = newSolver(solverBin)
	m.initPackages()
	if f != nil {
		m.conc.reset()
		m.conc.last = map[cKey]int{}
		m.conc.warm, m.crec = m.wantConc, m.wantConc
		defer func() {
			m.conc.warm, m.crec = false, false
			m.conc.base = len(m.conc.ev)
		}()
		m.callFn(f)
	}
	m.warm = false
	return nil
}

func showPanic(x any) string {
	if tp, ok := x.(targetPanic); ok {
		return "target panic " + valString(tp.v)
	}
	return fmt.Sprintf("%T %v", x, x)
}

func (m *M) rollback() {
	for i := len(m.trail) - 1; i >= 0; i-- {
		e := m.trail[i]
		e.o.cells[e.off] = e.old
	}
	m.trail = m.trail[:0]
	for mp, c := range m.mapSave {
		epoch := mp.epoch
		*mp = *c
		mp.epoch = epoch
		delete(m.mapSave, mp)
	}
}

func (m *M) runPath(w work) {
	m.noCutPath = w.noCut
	kind, msg := m.onePath(w)
	if kind == "poison" {
		// the code looks at the result of a parse that was cut short at its
		// first syntax error: run this path again without the short cut
		m.rollback()
		m.noCutPath = true
		m.forks = m.forks[:0]
		w.t.mu.Lock()
		w.t.Recut++
		w.t.mu.Unlock()
		kind, msg = m.onePath(w)
	}
	m.spec = false
	m.finish(w.t, kind, msg)
	m.rollback()
	m.epoch = 0
	m.ex.pushAll(m.forks)
	m.forks = m.forks[:0]
}

func (m *M) onePath(w work) (kind, msg string) {
	t := w.t
	m.tc.reset()
	m.sol.begin()
	clear(m.enc)
	m.prefix, m.dpos, m.dec = w.prefix, 0, m.dec[:0]
	m.path = &pathState{picks: map[string]uint64{}, opts: map[string]bool{}}
	m.depth, m.sp, m.steps, m.spec, m.crec = 0, 0, 0, false, false
	m.ruleDepth = 0
	m.limit = 2_000_000
	m.curTask = t
	m.nforks = 0
	m.epoch = 1
	m.atn.beginPath()
	kind = "ok"
	defer func() {
		if x := recover(); x != nil {
			switch e := x.(type) {
			case pathAbort:
				kind, msg = e.kind, e.msg
			case targetPanic:
				kind, msg = "panic", valString(e.v)
			case engineError:
				kind, msg = "unsupported", "engine: "+e.msg+m.where()
			default:
				kind, msg = "unsupported", fmt.Sprintf("engine: %v%s", x, m.where())
				if m.ex.debug {
					msg += "\n" + string(debug.Stack())
				}
			}
		}
	}()
	m.callFn(t.fn)
	return
}

func (m *M) finish(t *Task, kind, msg string) {
	t.mu.Lock()
	t.Steps += m.steps
	if m.steps > t.MaxSteps {
		t.MaxSteps = m.steps
	}
	t.Forks += m.nforks
	t.mu.Unlock()
	ps := m.path
	switch kind {
	case "infeasible":
		t.mu.Lock()
		t.Infeas++
		t.mu.Unlock()
		return
	case "assume":
		t.mu.Lock()
		t.Assumed++
		t.mu.Unlock()
		return
	}
	tc := m.tc
	all := tc.tTrue
	for _, c := range ps.checks {
		all = tc.And(all, c.cond)
	}
	if kind == "panic" {
		all = tc.tFalse
	}
	known := tc.tFalse
	for _, k := range ps.known {
		known = tc.Or(known, k.cond)
	}
	var wit, cex *Witness
	var kcex []*Witness
	unknown := ps.unknown
	func() {
		defer func() {
			if x := recover(); x != nil {
				unknown = true
				msg += fmt.Sprintf(" solver: %v", x)
				m.sol.close()
				m.sol = newSolver(solverBin)
			}
		}()
		r, asg := m.sol.model(tc, tc.tTrue)
		switch r {
		case "sat":
			wit = m.witness(t, asg, kind)
		case "unsat":
			kind = "infeasible"
		default:
			unknown = true
		}
		if kind == "infeasible" {
			return
		}
		for _, k := range ps.known {
			if all == tc.tTrue {
				break
			}
			r, asg := m.sol.model(tc, tc.And(k.cond, tc.Not(all)))
			if r == "sat" {
				kcex = append(kcex, m.witness(t, asg, kind))
			}
		}
		if all == tc.tTrue {
			return
		}
		r, asg = m.sol.model(tc, tc.And(tc.Not(known), tc.Not(all)))
		switch r {
		case "sat":
			cex = m.witness(t, asg, kind)
			for _, c := range ps.checks {
				if m.evalT(c.cond, asg) == 0 {
					cex.Fails = append(cex.Fails, c.msg)
				}
			}
			if kind == "panic" {
				cex.Fails = append(cex.Fails, "panic: "+msg)
			}
		case "unsat":
		default:
			unknown = true
		}
	}()
	t.mu.Lock()
	defer t.mu.Unlock()
	if kind == "infeasible" {
		t.Infeas++
		return
	}
	t.Paths++
	t.Checks += len(ps.checks)
	if len(ps.checks) > 0 {
		t.nonvac++
	}
	if all == tc.tTrue {
		t.Trivial++
	}
	if unknown {
		t.Unknown++
	}
	if kind == "unsupported" || kind == "limit" {
		if t.Unsup == nil {
			t.Unsup = map[string]int{}
		}
		if len(msg) > 1500 {
			msg = msg[:1500]
		}
		t.Unsup[kind+": "+msg]++
	}
	t.Known = append(t.Known, kcex...)
	if ps.cut {
		t.Cut++
	}
	if ps.real {
		t.Real++
	}
	t.Sums += ps.nsum
	if wit != nil {
		t.witnesses = append(t.witnesses, wit)
	}
	if cex != nil {
		t.Cex = append(t.Cex, cex)
	}
}

func (m *M) evalT(t *Term, asg map[*Var]uint64) uint64 {
	return eval(t, func(v *Var) uint64 { return asg[v] }, map[*Term]uint64{})
}

func (m *M) evalStr(v V, asg map[*Var]uint64) string {
	var sb strings.Builder
	memo := map[*Term]uint64{}
	for _, c := range strCells(v) {
		if c.p == nil {
			sb.WriteByte(byte(c.n))
		} else {
			sb.WriteByte(byte(eval(c.p.(*Term), func(v *Var) uint64 { return asg[v] }, memo)))
		}
	}
	return sb.String()
}

func (m *M) witness(t *Task, asg map[*Var]uint64, kind string) *Witness {
	w := &Witness{Harness: t.name, Vals: map[string]uint64{}, Kind: kind}
	for v, x := range asg {
		w.Vals[v.name] = x
	}
	for k, x := range m.path.picks {
		w.Vals[k] = x
	}
	for _, n := range m.path.notes {
		if n.str {
			w.Notes = append(w.Notes, n.name+"="+fmt.Sprintf("%q", m.evalStr(n.v, asg)))
		} else {
			x := n.v.n
			if n.v.p != nil {
				x = m.evalT(n.v.p.(*Term), asg)
			}
			w.Notes = append(w.Notes, fmt.Sprintf("%s=%d", n.name, sext(x, n.w)))
		}
	}
	return w
}

// explore runs the tasks with n workers.
func (ex *Explorer) explore(ms []*M) {
	ex.cond = sync.NewCond(&ex.mu)
	ex.rng = uint64(envSeed())*2654435761 + 88172645463325252
	for i := len(ex.tasks) - 1; i >= 0; i-- {
		ex.tasks[i].start = time.Now()
		ex.tasks[i].stack = append(ex.tasks[i].stack, work{t: ex.tasks[i]})
		ex.queued++
	}
	var wg sync.WaitGroup
	tm := time.AfterFunc(time.Until(ex.deadline), func() {
		ex.mu.Lock()
		ex.stop = true
		ex.mu.Unlock()
		ex.cond.Broadcast()
	})
	defer tm.Stop()
	for _, m := range ms {
		wg.Add(1)
		go func() {
			defer wg.Done()
			for {
				w, ok := ex.next()
				if !ok {
					return
				}
				st := time.Now()
				m.runPath(w)
				d := time.Since(st)
				w.t.mu.Lock()
				w.t.Wall += d
				w.t.mu.Unlock()
				ex.done(w.t, d)
			}
		}()
	}
	wg.Wait()
	for _, t := range ex.tasks {
		t.Dropped += len(t.stack)
	}
	for _, m := range ms {
		s := m.sol
		ex.nq += s.nq
		ex.nsat += s.nsat
		ex.nunsat += s.nunsat
		ex.nunk += s.nunk
		ex.solver += s.dur
		s.close()
	}
	if ex.profile != nil {
		type kv struct {
			k string
			n int
		}
		var l []kv
		for k, n := range ex.profile {
			l = append(l, kv{k, n})
		}
		sort.Slice(l, func(i, j int) bool { return l[i].n > l[j].n })
		for i, x := range l {
			if i > 25 {
				break
			}
			fmt.Fprintf(os.Stderr, "%6d %s\n", x.n, x.k)
		}
	}
}
