package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"io"
	"os"
	"os/exec"
	"path/filepath"
	"runtime"
	"runtime/debug"
	"runtime/pprof"
	"sort"
	"strings"
	"sync"
	"sync/atomic"
	"time"
)

var solverBin = envOr("VP_SOLVER", findSolver())
var pathLimit int64 = 400_000_000

// natRes mirrors vp.Result.
type natRes struct {
	Notes  []string `json:"notes"`
	Fails  []string `json:"fails"`
	Known  []string `json:"known"`
	Assume bool     `json:"assume"`
	Panic  string   `json:"panic"`
	Shown  []string `json:"shown"`
	Checks int      `json:"checks"`
	Crash  string   `json:"crash"`
}

func main() {
	prop := flag.String("prop", "", "property id, or a prefix of harness names")
	tier := flag.String("tier", "quick", "quick or thorough")
	root := flag.String("root", "/verif", "the verification directory")
	budget := flag.Duration("budget", 0, "exploration time")
	only := flag.String("only", "", "run only harnesses containing this text")
	workers := flag.Int("j", runtime.NumCPU()*3/2, "workers")
	profile := flag.Bool("profile", false, "print where paths fork")
	noNative := flag.Bool("nonative", false, "skip the native replay")
	cpuprof := flag.String("cpuprofile", "", "write a CPU profile")
	debug := flag.Bool("debug", false, "print details")
	noSum := flag.Bool("nosum", false, "no rule summaries")
	evOut := flag.String("evidence", "", "evidence file")
	keep := flag.Int("wit", 0, "native replays of path witnesses (0: by tier)")
	flag.Parse()
	if *cpuprof != "" {
		f, _ := os.Create(*cpuprof)
		pprof.StartCPUProfile(f)
	}
	code := run(&runOpts{*prop, *tier, *root, *budget, *only, *workers, *profile, *noNative, *debug, *noSum, *evOut, *keep})
	pprof.StopCPUProfile()
	os.Exit(code)
}

type runOpts struct {
	prop, tier, root string
	budget           time.Duration
	only             string
	workers          int
	profile          bool
	noNative         bool
	debug            bool
	noSum            bool
	evOut            string
	wit              int
}

func run(o *runOpts) int {
	start := time.Now()
	debug.SetGCPercent(500)
	debug.SetMemoryLimit(14 << 30)
	deep := o.tier == "thorough"
	if deep {
		pathLimit *= 3
	}
	if o.budget == 0 {
		o.budget = 80 * time.Second
		if deep {
			o.budget = 600 * time.Second
		}
	}
	nat := startNativeBuild(o)
	p, err := loadProg(filepath.Join(o.root, "harness"), "./h")
	if err != nil {
		fmt.Println("cannot load the program:", err)
		return 2
	}
	tLoad := time.Since(start)
	hp := p.pkgs["vpharness/h"]
	ex := &Explorer{p: p, debug: o.debug, deep: deep}
	if o.profile {
		ex.profile = map[string]int{}
	}
	var names []string
	for n := range hp.Members {
		if !strings.HasPrefix(n, o.prop+"_") || hp.Func(n) == nil || !strings.Contains(n, o.only) {
			continue
		}
		if strings.HasSuffix(n, "_Deep") && !deep {
			continue
		}
		names = append(names, n)
	}
	sort.Strings(names)
	if len(names) == 0 {
		fmt.Println("no harness for", o.prop)
		return 2
	}
	for _, n := range names {
		ex.tasks = append(ex.tasks, &Task{name: n, fn: p.fn(hp.Func(n))})
	}
	warm := p.fn(hp.Func("Warm"))
	ms := make([]*M, o.workers)
	errs := make([]error, o.workers)
	var wg sync.WaitGroup
	for i := range ms {
		wg.Add(1)
		go func() {
			defer wg.Done()
			ms[i] = newM(p, ex, i)
			ms[i].noSum = o.noSum
			ms[i].wantConc = o.prop == "C90"
			errs[i] = ms[i].warmup(warm)
		}()
	}
	wg.Wait()
	for _, e := range errs {
		if e != nil {
			// the fixed warm-up inputs do not parse any more: the harnesses
			// will say what that means
			if o.debug {
				fmt.Println(e)
			}
		}
	}
	ms[0].buildSummaries()
	tWarm := time.Since(start) - tLoad
	ex.deadline = time.Now().Add(o.budget)
	ex.explore(ms)
	tEx := time.Since(start) - tLoad - tWarm
	r := &report{o: o, ex: ex, start: start}
	if o.debug {
		fmt.Printf("load %v warm %v explore %v summaries %d\n", tLoad, tWarm, tEx, len(p.sums))
		for k, v := range ex.initErr {
			fmt.Println("init", k, v)
		}
	}
	if !o.noNative {
		r.replay(nat)
	}
	return r.finish()
}

// --- native replay ------------------------------------------------------------

type native struct {
	dir  string
	bin  string
	err  error
	done chan struct{}
}

func startNativeBuild(o *runOpts) *native {
	n := &native{done: make(chan struct{})}
	go func() {
		defer close(n.done)
		if o.noNative {
			return
		}
		n.dir, n.err = os.MkdirTemp("", "vpnative")
		if n.err != nil {
			return
		}
		n.bin = filepath.Join(n.dir, "replay")
		n.err = buildNative(o.root, o.prop, n.bin)
	}()
	return n
}

func buildNative(root, prop, bin string) error {
	cmd := exec.Command(filepath.Join(root, "harness", "native.sh"), bin, prop)
	if out, err := cmd.CombinedOutput(); err != nil {
		return fmt.Errorf("%v: %s", err, out)
	}
	return nil
}

type natProc struct {
	cmd *exec.Cmd
	in  io.WriteCloser
	out *bufio.Reader
}

func (n *native) start(deep bool) (*natProc, error) {
	args := []string{"-serve"}
	if deep {
		args = append(args, "-deep")
	}
	cmd := exec.Command(n.bin, args...)
	cmd.Env = append(os.Environ(), "TZ=UTC")
	in, err := cmd.StdinPipe()
	if err != nil {
		return nil, err
	}
	out, err := cmd.StdoutPipe()
	if err != nil {
		return nil, err
	}
	if err := cmd.Start(); err != nil {
		return nil, err
	}
	return &natProc{cmd, in, bufio.NewReaderSize(out, 1<<20)}, nil
}

func (np *natProc) stop() {
	np.in.Close()
	np.cmd.Process.Kill()
	np.cmd.Wait()
}

// ask replays one witness.
func (np *natProc) ask(w *Witness, limit time.Duration) *natRes {
	b, _ := json.Marshal(w)
	if _, err := np.in.Write(append(b, '\n')); err != nil {
		return nil
	}
	type ans struct {
		ln  []byte
		err error
	}
	ch := make(chan ans, 1)
	go func() {
		for {
			ln, err := np.out.ReadBytes('\n')
			if err == nil && !strings.HasPrefix(string(ln), "@@") {
				continue
			}
			ch <- ans{ln, err}
			return
		}
	}()
	select {
	case a := <-ch:
		if a.err != nil {
			return nil
		}
		r := &natRes{}
		if json.Unmarshal(a.ln[2:], r) != nil {
			return nil
		}
		return r
	case <-time.After(limit):
		return nil
	}
}

// replayAll runs witnesses natively, in parallel.
func (n *native) replayAll(ws []*Witness, deep bool, workers int, until time.Time) []*natRes {
	out := make([]*natRes, len(ws))
	var mu sync.Mutex
	var hung atomic.Bool
	next := 0
	var wg sync.WaitGroup
	for i := 0; i < workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			np, err := n.start(deep)
			if err != nil {
				return
			}
			defer func() { np.stop() }()
			for {
				mu.Lock()
				k := next
				next++
				mu.Unlock()
				if k >= len(ws) || time.Now().After(until) || hung.Load() {
					return
				}
				t := time.Now()
				r := np.ask(ws[k], 120*time.Second)
				if r == nil {
					// one input without an answer is enough, and so is one that
					// used up the memory
					if time.Since(t) > 4*time.Second {
						hung.Store(true)
					}
					np.stop()
					r = &natRes{Crash: "the process died, used up its memory or did not answer within 120 s"}
					np, err = n.start(deep)
					if err != nil {
						return
					}
				}
				out[k] = r
			}
		}()
	}
	wg.Wait()
	return out
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func findSolver() string {
	if _, err := exec.LookPath("z3-new"); err == nil {
		return "z3-new"
	}
	return "z3"
}
