// Command replay runs harnesses natively on given inputs.
package main

import (
	"bufio"
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"time"

	"vpharness/h"
	"vpharness/vp"
)

type witness struct {
	Harness string            `json:"harness"`
	Vals    map[string]uint64 `json:"vals"`
	Deep    bool              `json:"deep"`
}

func one(w *witness) *vp.Result {
	vp.Begin(w.Vals)
	vp.Source = w
	f := h.Tasks[w.Harness]
	if f == nil {
		vp.Res.Assume = true // not registered: nothing is learnt from it
		return vp.Res
	}
	vp.Guard(f)
	return vp.Res
}

// watch ends the process when its parent has gone or when the code under test
// has run away with more than 1.5 GB of memory.
func watch(parent int) {
	for {
		time.Sleep(200 * time.Millisecond)
		if os.Getppid() != parent {
			os.Exit(3)
		}
		b, err := os.ReadFile("/proc/self/statm")
		if err != nil {
			continue
		}
		var size, resident int64
		if n, _ := fmt.Sscan(string(b), &size, &resident); n == 2 && resident*int64(os.Getpagesize()) > 3<<29 {
			os.Exit(4)
		}
	}
}

func main() {
	serve := flag.Bool("serve", false, "read witnesses from standard input")
	deep := flag.Bool("deep", false, "thorough tier")
	flag.Parse()
	vp.DeepTier = *deep
	if os.Getenv("GORACE") == "" {
		os.Setenv("GORACE", "halt_on_error=1 exitcode=66")
	}
	devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	if *serve {
		go watch(os.Getppid())
		if devnull != nil {
			os.Stderr = devnull
		}
		out := bufio.NewWriter(os.Stdout)
		in := bufio.NewReaderSize(os.Stdin, 1<<20)
		for {
			ln, err := in.ReadBytes('\n')
			if err != nil {
				return
			}
			w := &witness{}
			if err := json.Unmarshal(ln, w); err != nil {
				fmt.Fprintln(out, "@@{}")
				out.Flush()
				continue
			}
			b, _ := json.Marshal(one(w))
			fmt.Fprintf(out, "\n@@%s\n", b)
			out.Flush()
		}
	}
	for _, f := range flag.Args() {
		b, err := os.ReadFile(f)
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		w := &witness{}
		if err := json.Unmarshal(b, w); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		vp.DeepTier = w.Deep
		r := one(w)
		o, _ := json.MarshalIndent(r, "", " ")
		fmt.Println(string(o))
		if len(r.Fails) > 0 {
			os.Exit(1)
		}
	}
}
