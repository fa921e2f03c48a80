// Command replay executes recorded harness inputs against the compiled code.
package main

import (
	"encoding/json"
	"fmt"
	"os"
	"runtime/debug"
	"strconv"
	"time"

	"verifharness/sym"
)

type item struct {
	Harness  string      `json:"harness"`
	Inputs   []sym.Input `json:"inputs"`
	Tier     string      `json:"tier"`
	Repeat   int         `json:"repeat"`
	Want     [][2]string `json:"want"` // stop repeating once the observations agree
	Property string      `json:"property"`
	Label    string      `json:"label"`
	Detail   string      `json:"detail,omitempty"`
}

func run(it item, timeout time.Duration) *sym.Outcome {
	f := registry[it.Harness]
	if f == nil {
		return &sym.Outcome{Mismatch: "no such harness " + it.Harness}
	}
	var out *sym.Outcome
	n := it.Repeat
	if n < 1 {
		n = 1
	}
	for i := 0; i < n; i++ {
		out = sym.Start(it.Inputs, it.Tier)
		done := make(chan struct{})
		var pmsg string
		go func() {
			defer close(done)
			defer func() {
				if r := recover(); r != nil {
					pmsg = fmt.Sprint(r)
					if os.Getenv("REPLAY_TRACE") != "" {
						debug.PrintStack()
					}
				}
			}()
			f()
		}()
		select {
		case <-done:
			if pmsg != "" {
				out.Panic = pmsg
			}
		case <-time.After(timeout):
			return &sym.Outcome{Timeout: true}
		}
		if len(out.Violations) > 0 || out.Panic != "" {
			return out
		}
		if it.Want != nil && fmt.Sprint(it.Want) == fmt.Sprint(out.Obs) {
			return out
		}
	}
	return out
}

func main() {
	// replay FILE            one recorded violation: exit 1 when it happens again
	// replay -batch IN OUT   a list of items; outcomes written as JSON lines
	if len(os.Args) == 2 {
		b, err := os.ReadFile(os.Args[1])
		if err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		var it item
		if err := json.Unmarshal(b, &it); err != nil {
			fmt.Println(err)
			os.Exit(2)
		}
		out := run(it, 20*time.Second)
		for _, o := range out.Obs {
			fmt.Printf("%s = %s\n", o[0], strconv.Quote(o[1]))
		}
		switch {
		case out.Timeout:
			fmt.Println("VIOLATED: the run does not terminate")
		case out.Panic != "":
			fmt.Println("VIOLATED: uncaught panic:", out.Panic)
		case len(out.Violations) > 0:
			fmt.Println("VIOLATED:", out.Violations[0])
		default:
			fmt.Println("not reproduced", out.Mismatch)
			os.Exit(0)
		}
		os.Exit(1)
	}
	b, err := os.ReadFile(os.Args[2])
	if err != nil {
		panic(err)
	}
	var items []item
	if err := json.Unmarshal(b, &items); err != nil {
		panic(err)
	}
	start := 0
	if len(os.Args) > 4 {
		start, _ = strconv.Atoi(os.Args[4])
	}
	w, err := os.OpenFile(os.Args[3], os.O_APPEND|os.O_CREATE|os.O_WRONLY, 0o644)
	if err != nil {
		panic(err)
	}
	for i := start; i < len(items); i++ {
		out := run(items[i], 10*time.Second)
		js, _ := json.Marshal(out)
		fmt.Fprintf(w, "%d %s\n", i, js)
		if out.Timeout {
			os.Exit(3) // the stuck goroutine shares state with the next run: continue in a new process
		}
	}
}
