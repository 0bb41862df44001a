// Package vp is the interface between the harness functions and the two ways
// of running them.  The engine replaces every function here by a symbolic
// model; the bodies below serve the native replay of one witness.
package vp

import (
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"strings"
	"sync"
	"time"
	"unicode/utf8"
)

// Input is the witness being replayed.
var Input map[string]uint64

// Result is what one native run observed.
type Result struct {
	Notes  []string `json:"notes"`
	Fails  []string `json:"fails"`
	Known  []string `json:"known"`
	Assume bool     `json:"assume"`
	Panic  string   `json:"panic"`
	Shown  []string `json:"shown"`
	Checks int      `json:"checks"`
}

// Res is the result being collected.
var Res *Result

// ClockHook sets the native clock, when the binary was built with one.
var ClockHook func(sec int64)

// DeepTier is the tier of the run.
var DeepTier bool

type assumeFailed struct{}

// Begin starts a native run.
func Begin(in map[string]uint64) {
	Input = in
	Res = &Result{}
	if ClockHook != nil {
		ClockHook(-1)
	}
}

// Guard runs f and records how it ended.
func Guard(f func()) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(assumeFailed); ok {
				Res.Assume = true
				return
			}
			Res.Panic = fmt.Sprint(x)
			Res.Fails = append(Res.Fails, "panic: "+Res.Panic)
		}
	}()
	f()
}

func val(name string, def uint64) uint64 {
	if x, ok := Input[name]; ok {
		return x
	}
	return def
}

// Rune is any code point of the set (a list of inclusive ranges).
func Rune(name string, set []rune) rune { return rune(val(name, uint64(set[0]))) }

// Chars is a string of n code points of the set.
func Chars(name string, n int, set []rune) string {
	var b []byte
	for i := 0; i < n; i++ {
		b = utf8.AppendRune(b, Rune(fmt.Sprintf("%s#%d", name, i), set))
	}
	return string(b)
}

// RawBytes is a string of n arbitrary bytes.
func RawBytes(name string, n int) string {
	b := make([]byte, n)
	for i := range b {
		b[i] = byte(val(fmt.Sprintf("%s#%d", name, i), 0))
	}
	return string(b)
}

// Int is any integer in [lo,hi].
func Int(name string, lo, hi int) int {
	if lo < 0 {
		return int(val(name, 0)) + lo
	}
	return int(val(name, uint64(lo)))
}

// Choice is any integer in [0,n), explored case by case.
func Choice(name string, n int) int { return int(val(name, 0)) }

// Assume restricts the inputs.
func Assume(c bool) {
	if !c {
		panic(assumeFailed{})
	}
}

// Check states what must hold.
func Check(c bool, msg string) {
	Res.Checks++
	if !c {
		Res.Fails = append(Res.Fails, msg)
	}
}

// Known attributes failures of this input to a recorded finding.
func Known(id string, c bool) {
	if c {
		Res.Known = append(Res.Known, id)
	}
}

// NoteStr records an observed string.
func NoteStr(name, v string) {
	Res.Notes = append(Res.Notes, name+"="+fmt.Sprintf("%q", v))
}

// NoteInt records an observed integer.
func NoteInt(name string, v int) {
	Res.Notes = append(Res.Notes, fmt.Sprintf("%s=%d", name, v))
}

// NoteBool records an observed truth value.
func NoteBool(name string, v bool) {
	x := 0
	if v {
		x = 1
	}
	NoteInt(name, x)
}

// And is a conjunction that does not branch.
func And(c ...bool) bool {
	for _, x := range c {
		if !x {
			return false
		}
	}
	return true
}

// Or is a disjunction that does not branch.
func Or(c ...bool) bool {
	for _, x := range c {
		if x {
			return true
		}
	}
	return false
}

// In tells whether r is in the set, without branching.
func In(r rune, set []rune) bool {
	for i := 0; i+1 < len(set); i += 2 {
		if set[i] <= r && r <= set[i+1] {
			return true
		}
	}
	return false
}

// IteInt selects without branching.
func IteInt(c bool, a, b int) int {
	if c {
		return a
	}
	return b
}

// Options sets exploration options.
func Options(o ...string) {}

// Symbolic tells whether the engine is running.
func Symbolic() bool { return false }

// Deep tells whether this is the thorough tier.
func Deep() bool { return DeepTier }

// SetClock fixes the clock, in seconds since 1970.
func SetClock(sec int64) {
	if ClockHook == nil {
		panic("no clock hook in this build")
	}
	ClockHook(sec)
}

// Panics runs f and tells whether it panicked.
func Panics(f func()) (p bool) {
	defer func() {
		if x := recover(); x != nil {
			if _, ok := x.(assumeFailed); ok {
				panic(x)
			}
			Res.Panic = fmt.Sprint(x)
			p = true
		}
	}()
	f()
	return false
}

// Show records the concrete input in readable form (native runs only).
func Show(what, v string) { Res.Shown = append(Res.Shown, what+"="+fmt.Sprintf("%q", v)) }

// Source is the witness of the run, as read.
var Source any

// Concurrent calls f(0) and f(1) at the same time and gives their results.
// Natively, many goroutines do so and every call must give what it gives alone;
// to confirm a predicted race the run is repeated in fresh processes, in which
// nothing has been called before.
func Concurrent(f func(i int) string) []string {
	if Input["confirm"] == 1 {
		confirm()
	}
	const workers = 8
	rounds := 3
	if Input["confirm"] == 2 {
		rounds = 40
	}
	var wg sync.WaitGroup
	start := make(chan bool)
	got := make([][]string, workers)
	for g := range got {
		wg.Add(1)
		go func() {
			defer wg.Done()
			defer func() {
				if x := recover(); x != nil {
					got[g] = append(got[g], fmt.Sprint("panic: ", x))
				}
			}()
			<-start
			for i := 0; i < rounds; i++ {
				got[g] = append(got[g], f(g%2))
			}
		}()
	}
	close(start)
	wg.Wait()
	alone := []string{f(0), f(1)}
	for g := range got {
		for _, r := range got[g] {
			if r != alone[g%2] {
				Check(false, fmt.Sprintf("a concurrent call gives %q, alone it gives %q", r, alone[g%2]))
				return alone
			}
		}
	}
	return alone
}

// confirm repeats the run in fresh processes.
func confirm() {
	b, _ := json.Marshal(Source)
	b = []byte(strings.Replace(string(b), `"confirm":1`, `"confirm":2`, 1))
	t, err := os.CreateTemp("", "vpconc")
	if err != nil {
		return
	}
	defer os.Remove(t.Name())
	t.Write(b)
	t.Close()
	// The replay as a whole has 120 s: no child is started after 40 s, and one
	// which has not ended after 60 s hangs.
	start := time.Now()
	for i := 0; i < 25 && time.Since(start) < 40*time.Second; i++ {
		ctx, cancel := context.WithTimeout(context.Background(), time.Minute)
		out, err := exec.CommandContext(ctx, os.Args[0], t.Name()).CombinedOutput()
		hangs := ctx.Err() != nil
		cancel()
		if err == nil {
			continue
		}
		what := "a concurrent call fails"
		if hangs {
			what = "concurrent calls do not return"
		} else if s := string(out); strings.Contains(s, "DATA RACE") {
			what = "data race"
			for _, ln := range strings.Split(s, "\n") {
				ln = strings.TrimSpace(ln)
				if strings.HasPrefix(ln, "github.com/ProtonMail") {
					what += " in " + ln
					break
				}
			}
		}
		Check(false, what)
		return
	}
}
