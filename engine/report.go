package main

import (
	"encoding/json"
	"fmt"
	"os"
	"path/filepath"
	"sort"
	"strings"
	"time"
)

type report struct {
	o     *runOpts
	ex    *Explorer
	start time.Time

	replayed   int
	mismatch   []string
	skipped    int
	unconf     []string
	violations []*Witness
	known      map[string]*Witness
	natErr     string
	samples    []map[string]any
}

func (r *report) replay(n *native) {
	<-n.done
	if n.dir != "" {
		defer os.RemoveAll(n.dir)
	}
	if n.err != nil {
		r.natErr = n.err.Error()
		return
	}
	deep := r.o.tier == "thorough"
	r.known = map[string]*Witness{}
	listed := loadKnown(r.o.root, r.o.prop)
	// 1. counterexamples
	var cex, kn []*Witness
	for _, t := range r.ex.tasks {
		cex = append(cex, sample(t.Cex, 40)...)
		kn = append(kn, sample(t.Known, 10)...)
	}
	until := time.Now().Add(180 * time.Second)
	seenH := map[string]int{}
	take := func(ws []*Witness, isCex bool) {
		if isCex && r.o.prop == "C90" {
			// schedules are looked for in fresh processes
			ws = sample(ws, 12)
			for _, w := range ws {
				w.Vals["confirm"] = 1
			}
		}
		res := n.replayAll(ws, deep, r.o.workers, until)
		for i, w := range ws {
			a := res[i]
			if a == nil {
				r.skipped++
				continue
			}
			w.Shown = a.Shown
			r.replayed++
			if seenH[w.Harness]++; seenH[w.Harness] <= 2 && len(r.samples) < 40 {
				r.samples = append(r.samples, map[string]any{"harness": w.Harness, "input": clip(a.Shown), "observed": clip(a.Notes), "failed": a.Fails})
			}
			fails := a.Fails
			if a.Crash != "" {
				fails = append(fails, a.Crash)
			}
			if len(fails) > 0 && !a.Assume {
				w.Fails = fails
				attributed := ""
				for _, k := range a.Known {
					if listed[k] != "" {
						attributed = k
					}
				}
				if attributed != "" {
					if r.known[attributed] == nil {
						r.known[attributed] = w
					}
				} else {
					r.violations = append(r.violations, w)
				}
				continue
			}
			if isCex {
				r.unconf = append(r.unconf, fmt.Sprintf("%s %v %v: predicted %v; natively %v", w.Harness, w.Vals, a.Shown, w.Fails, a.Notes))
				continue
			}
			if w.Kind == "ok" && strings.Join(a.Notes, "|") != strings.Join(w.Notes, "|") && !a.Assume {
				r.mismatch = append(r.mismatch, fmt.Sprintf("%s %v %v: predicted %v; natively %v", w.Harness, w.Vals, a.Shown, w.Notes, a.Notes))
			}
			if a.Assume {
				r.mismatch = append(r.mismatch, fmt.Sprintf("%s %v: assumption fails natively", w.Harness, w.Vals))
			}
		}
	}
	take(cex, true)
	take(kn, true)
	// 2. path witnesses
	if len(r.violations) == 0 || r.o.debug {
		per := r.o.wit
		if per == 0 {
			per = 600
			if deep {
				per = 3000
			}
			if r.o.prop == "C90" {
				per /= 4 // each runs many times, under the race detector
			}
		}
		per = per/len(r.ex.tasks) + 1
		var ws []*Witness
		for _, t := range r.ex.tasks {
			// paths the engine could not finish come first
			var odd, ok []*Witness
			for _, w := range t.witnesses {
				if w.Kind != "ok" {
					odd = append(odd, w)
				} else {
					ok = append(ok, w)
				}
			}
			ws = append(ws, sample(odd, per)...)
			ws = append(ws, sample(ok, per)...)
		}
		take(ws, false)
	}
}

func clip(l []string) []string {
	var out []string
	for i, s := range l {
		if i == 8 {
			out = append(out, "…")
			break
		}
		if len(s) > 200 {
			s = s[:200] + "…"
		}
		out = append(out, s)
	}
	return out
}

func sample(ws []*Witness, n int) []*Witness {
	if len(ws) <= n {
		return ws
	}
	var out []*Witness
	for i := 0; i < n; i++ {
		out = append(out, ws[i*len(ws)/n])
	}
	return out
}

func loadKnown(root, prop string) map[string]string {
	out := map[string]string{}
	b, err := os.ReadFile(filepath.Join(root, "known-findings.txt"))
	if err != nil {
		return out
	}
	for _, ln := range strings.Split(string(b), "\n") {
		// known: property=<id> id=<finding> <what fails>
		f := strings.Fields(ln)
		if len(f) < 4 || f[0] != "known:" || f[1] != "property="+prop || !strings.HasPrefix(f[2], "id=") {
			continue
		}
		out[strings.TrimPrefix(f[2], "id=")] = strings.Join(f[3:], " ")
	}
	return out
}

func (r *report) finish() int {
	ex, o := r.ex, r.o
	type taskEv struct {
		Harness     string         `json:"harness"`
		Paths       int            `json:"paths"`
		Infeasible  int            `json:"infeasible_or_assumed_away"`
		Checks      int            `json:"assertions"`
		NonVacuous  int            `json:"paths_with_assertions"`
		Trivial     int            `json:"decided_by_normalisation"`
		Cut         int            `json:"cut_at_first_syntax_error"`
		Recut       int            `json:"rerun_without_cut"`
		Sums        int            `json:"rule_summaries_applied"`
		Real        int            `json:"paths_using_runtime_prediction"`
		Unknown     int            `json:"paths_with_unknown"`
		Unfinished  map[string]int `json:"unfinished_paths,omitempty"`
		Pending     int            `json:"unexplored_branches"`
		Steps       int64          `json:"ssa_steps"`
		MaxSteps    int64          `json:"max_steps_per_path"`
		Cex         int            `json:"counterexamples"`
		WorkSeconds float64        `json:"work_seconds"`
	}
	var tes []taskEv
	paths, checks, nonvac, steps, unf, unk, pend := 0, 0, 0, int64(0), 0, 0, 0
	vacuous := []string{}
	complete := true
	for _, t := range ex.tasks {
		te := taskEv{t.name, t.Paths, t.Infeas + t.Assumed, t.Checks, t.nonvac, t.Trivial, t.Cut, t.Recut, t.Sums, t.Real, t.Unknown, t.Unsup, t.Dropped, t.Steps, t.MaxSteps, len(t.Cex), t.Wall.Seconds()}
		tes = append(tes, te)
		paths += t.Paths
		checks += t.Checks
		nonvac += t.nonvac
		steps += t.Steps
		for _, n := range t.Unsup {
			unf += n
		}
		unk += t.Unknown
		pend += t.Dropped
		if t.nonvac == 0 {
			vacuous = append(vacuous, t.name)
		}
		if t.Dropped > 0 || len(t.Unsup) > 0 || t.Unknown > 0 {
			complete = false
		}
	}
	if o.debug {
		b, _ := json.MarshalIndent(tes, "", " ")
		fmt.Println(string(b))
		for _, t := range ex.tasks {
			for i, w := range t.Cex {
				if i > 5 {
					break
				}
				fmt.Println("CEX", w.Harness, w.Vals, w.Fails, w.Notes, w.Shown)
			}
		}
	}
	// functions of the repository that were executed symbolically
	var fns []string
	nfn := 0
	for _, fn := range ex.p.fns {
		if fn.touched.Load() {
			nfn++
			if strings.Contains(fn.name, repoPkg) && !strings.Contains(fn.name, "vpharness") {
				fns = append(fns, strings.ReplaceAll(fn.name, repoPkg, "rfc5322"))
			}
		}
	}
	sort.Strings(fns)
	var models []string
	for n, why := range stubbed {
		if why != "std" {
			models = append(models, n+": "+why)
		}
	}
	sort.Strings(models)
	exit := 0
	seen := map[string]bool{}
	for _, w := range r.violations {
		key := w.Harness + strings.Join(w.Fails, ";")
		if seen[key] || len(seen) > 8 {
			continue
		}
		seen[key] = true
		os.MkdirAll(filepath.Join(o.root, "evidence", "replay"), 0o755)
		path := filepath.Join(o.root, "evidence", "replay", fmt.Sprintf("%s-%d.json", o.prop, len(seen)))
		b, _ := json.MarshalIndent(map[string]any{"harness": w.Harness, "vals": w.Vals, "fails": w.Fails, "shown": w.Shown, "deep": o.tier == "thorough",
			"how": "cd /verif && ./replay.sh " + path}, "", " ")
		os.WriteFile(path, b, 0o644)
		fmt.Printf("VIOLATION property=%s replay=%s\n", o.prop, path)
		fmt.Printf("  %s: %s; input %s\n", w.Harness, strings.Join(w.Fails, "; "), strings.Join(w.Shown, " "))
		exit = 1
	}
	listed := loadKnown(o.root, o.prop)
	for id := range r.known {
		fmt.Printf("KNOWN-FINDING: property=%s %s (e.g. %s)\n", o.prop, listed[id], strings.Join(r.known[id].Shown, " "))
	}
	ev := map[string]any{
		"property": o.prop,
		"tier":     o.tier,
		"seed":     envSeed(),
		"level":    "model_checking",
		"wall_s":   time.Since(r.start).Seconds(),
		"coverage": map[string]any{
			"states":                        paths,
			"transitions":                   steps,
			"traces_validated_against_impl": r.replayed,
			"samples":                       r.samples,
			"paths_explored":                paths,
			"assertions_decided":            checks,
			"paths_with_assertions":         nonvac,
			"complete_within_bounds":        complete,
			"unexplored_branches":           pend,
			"unfinished_paths":              unf,
			"paths_with_unknown_answer":     unk,
			"solver":                        solverBin,
			"solver_queries":                ex.nq + schedQueries.n,
			"schedule_queries":              schedQueries.n,
			"solver_sat":                    ex.nsat,
			"solver_unsat":                  ex.nunsat,
			"solver_unknown":                ex.nunk,
			"solver_seconds":                ex.solver.Seconds(),
			"witnesses_replayed":            r.replayed,
			"replays_skipped":               r.skipped,
			"prediction_mismatches":         len(r.mismatch),
			"unconfirmed_counterexamples":   len(r.unconf),
			"functions_executed":            nfn,
			"repo_functions_encoded":        fns,
			"harnesses":                     tes,
			"bounds":                        boundsOf(o.root, o.prop),
		},
		"assumptions": append(baseAssumptions(), models...),
		"violations":  len(seen),
	}
	if r.natErr != "" {
		ev["native_error"] = r.natErr
	}
	out := o.evOut
	if out == "" && o.only == "" {
		out = filepath.Join(o.root, "evidence", o.prop+".json")
	}
	if out != "" {
		os.MkdirAll(filepath.Dir(out), 0o755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(out, append(b, '\n'), 0o644)
	}
	fmt.Printf("%s %s: %d paths, %d assertions, %d unexplored, %d unfinished, %d unknown, %d replayed, %d mismatches, %d unconfirmed, solver %d queries %.1fs, wall %.1fs\n",
		o.prop, o.tier, paths, checks, pend, unf, unk, r.replayed, len(r.mismatch), len(r.unconf), ex.nq, ex.solver.Seconds(), time.Since(r.start).Seconds())
	show := func(what string, l []string) {
		for i, s := range l {
			if i >= 5 {
				break
			}
			if len(s) > 900 {
				s = s[:900]
			}
			fmt.Println(what, s)
		}
	}
	show("note: predicted and native results differ:", r.mismatch)
	show("note: counterexample not confirmed natively:", r.unconf)
	show("note: harness without assertions reached:", vacuous)
	if r.natErr != "" {
		fmt.Println("cannot build the native replay:", r.natErr)
		return 2
	}
	return exit
}

func envSeed() int {
	n := 0
	fmt.Sscan(os.Getenv("VERIF_SEED"), &n)
	return n
}

func baseAssumptions() []string {
	return []string{
		"Go SSA semantics as modelled by the engine; sequential execution; sync and atomic operations are plain loads and stores",
		"grammar prediction is full-context LL on the ATN the parser deserialises; the contents of ANTLR's shared DFA caches are not part of the state",
		"each explored path's witness is replayed on the compiled code and must observe what the engine predicted",
	}
}

func boundsOf(root, prop string) string {
	b, err := os.ReadFile(filepath.Join(root, "harness", "bounds.json"))
	if err != nil {
		return ""
	}
	m := map[string]string{}
	if json.Unmarshal(b, &m) != nil {
		return ""
	}
	return m[prop]
}
