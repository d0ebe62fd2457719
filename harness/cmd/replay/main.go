// Command replay runs harnesses natively against the real code.
//
//	replay replay FILE            run one harness on the inputs in FILE
//	replay search NAME SEED SECS  run NAME on seeded random inputs
package main

import (
	"encoding/json"
	"fmt"
	"math/rand"
	"os"
	"runtime/debug"
	"strconv"
	"time"

	"verif/props"
	"verif/verif"
)

type result struct {
	Outcome  string            `json:"outcome"`
	Harness  string            `json:"harness"`
	Label    string            `json:"label"`
	Msg      string            `json:"msg"`
	Inputs   map[string]string `json:"inputs"`
	Runs     int               `json:"runs"`
	Valid    int               `json:"valid"`
	Failures []result          `json:"failures"`
}

// once runs f with the current source; hang detection by a watchdog.
func once(h string, f func()) (r result) {
	r.Harness = h
	defer verif.Clean()
	done := make(chan bool)
	go func() {
		defer close(done)
		defer func() {
			r.Inputs = verif.Src.Used
			switch x := recover().(type) {
			case nil:
				r.Outcome = "pass"
			case verif.Discard:
				r.Outcome = "discard"
			case verif.Failure:
				r.Outcome, r.Label, r.Msg = "fail", x.Label, x.Msg
			default:
				r.Outcome, r.Label, r.Msg = "fail", "no-panic", fmt.Sprintf("panic: %v\n%s", x, debug.Stack())
			}
		}()
		f()
	}()
	select {
	case <-done:
	case <-time.After(10 * time.Second):
		return result{Harness: h, Outcome: "fail", Label: "terminates", Msg: "no result within 10 s", Inputs: verif.Src.Used}
	}
	return r
}

func emit(r result) {
	b, _ := json.Marshal(r)
	fmt.Printf("\nRESULT %s\n", b)
}

func main() {
	devnull, _ := os.OpenFile(os.DevNull, os.O_WRONLY, 0)
	stdout := os.Stdout
	switch os.Args[1] {
	case "replay":
		var doc struct {
			Harness string
			Inputs  map[string]any
		}
		b, err := os.ReadFile(os.Args[2])
		if err != nil {
			panic(err)
		}
		if err := json.Unmarshal(b, &doc); err != nil {
			panic(err)
		}
		in := map[string]string{}
		for k, v := range doc.Inputs {
			if f, ok := v.(float64); ok {
				in[k] = strconv.FormatInt(int64(f), 10)
			} else {
				in[k] = fmt.Sprint(v)
			}
		}
		verif.Src = &verif.Source{Fixed: in, Used: map[string]string{}}
		f := props.Registry[doc.Harness]
		if f == nil {
			fmt.Println("no harness", doc.Harness)
			os.Exit(2)
		}
		os.Stdout, os.Stderr = devnull, devnull
		r := once(doc.Harness, f)
		os.Stdout = stdout
		emit(r)
	case "search":
		name := os.Args[2]
		f := props.Registry[name]
		if f == nil {
			fmt.Println("no harness", name)
			os.Exit(2)
		}
		seed, _ := strconv.Atoi(os.Args[3])
		secs, _ := strconv.ParseFloat(os.Args[4], 64)
		end := time.Now().Add(time.Duration(secs * float64(time.Second)))
		rng := rand.New(rand.NewSource(int64(seed)))
		os.Stdout, os.Stderr = devnull, devnull
		total := result{Outcome: "pass", Harness: name}
		seen := map[string]bool{}
		for time.Now().Before(end) && total.Runs < 2000000 {
			verif.Src = &verif.Source{Rng: rng, Used: map[string]string{}}
			r := once(name, f)
			total.Runs++
			switch r.Outcome {
			case "pass":
				total.Valid++
			case "fail":
				key := r.Label
				if len(r.Msg) > 60 {
					key += r.Msg[:60]
				}
				if !seen[key] {
					seen[key] = true
					if total.Outcome == "pass" {
						r.Runs, r.Valid = total.Runs, total.Valid
						total.Outcome, total.Label, total.Msg, total.Inputs = r.Outcome, r.Label, r.Msg, r.Inputs
					} else {
						total.Failures = append(total.Failures, r)
					}
				}
				if r.Label == "terminates" || len(seen) > 8 {
					end = time.Now()
				}
			}
		}
		os.Stdout = stdout
		emit(total)
	}
}
