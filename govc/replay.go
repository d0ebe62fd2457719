package main

import (
	"bytes"
	"context"
	"encoding/json"
	"fmt"
	"os"
	"os/exec"
	"path/filepath"
	"strings"
	"sync"
	"time"
)

// Replayer runs harnesses natively against the real code: solver models of refuted obligations, and a
// seeded concrete search where an obligation could not be decided.
type Replayer struct {
	verif, hdir, prop string
	seed              int
	bin               string
	tmp               string
	err               error
	done              chan bool
}

func NewReplayer(verif, hdir, prop string, seed int) *Replayer {
	return &Replayer{verif: verif, hdir: hdir, prop: prop, seed: seed, done: make(chan bool)}
}

// replayFile runs one harness on recorded inputs.
func (r *Replayer) replayFile(f string) int {
	<-r.done
	if r.err != nil {
		fmt.Fprintln(os.Stderr, "govc: replay build:", r.err)
		return 2
	}
	f, _ = filepath.Abs(f)
	res, out, _ := r.exec(60*time.Second, "replay", f)
	fmt.Print(out)
	fmt.Printf("\n%s %s/%s %s\n", res.Outcome, res.Harness, res.Label, res.Msg)
	if res.Outcome == "pass" || res.Outcome == "discard" {
		return 0
	}
	return 1
}

func (r *Replayer) startBuild(ov *Overlay) {
	r.tmp, r.err = os.MkdirTemp("", "govc-replay-")
	if r.err != nil {
		close(r.done)
		return
	}
	var of string
	if of, r.err = ov.write(r.tmp); r.err != nil {
		close(r.done)
		return
	}
	r.bin = filepath.Join(r.tmp, "replay")
	go func() {
		defer close(r.done)
		cmd := exec.Command("go", "build", "-overlay", of, "-o", r.bin, "./cmd/replay")
		cmd.Dir = r.hdir
		cmd.Env = append(os.Environ(), "GOFLAGS=-mod=mod", "GOPROXY=off", "GOSUMDB=off", "GOWORK=off")
		out, err := cmd.CombinedOutput()
		if err != nil {
			r.err = fmt.Errorf("%v: %s", err, out)
		}
	}()
}

func (r *Replayer) cleanup() {
	if r.tmp != "" {
		os.RemoveAll(r.tmp)
	}
}

type ReplayResult struct {
	Outcome  string            `json:"outcome"` // pass, discard, fail
	Harness  string            `json:"harness"`
	Label    string            `json:"label"`
	Msg      string            `json:"msg"`
	Inputs   map[string]string `json:"inputs"`
	Runs     int               `json:"runs"`
	Valid    int               `json:"valid"`
	Failures []ReplayResult    `json:"failures"`
}

func (r *Replayer) exec(timeout time.Duration, args ...string) (*ReplayResult, string, error) {
	ctx, cancel := context.WithTimeout(context.Background(), timeout)
	defer cancel()
	cmd := exec.CommandContext(ctx, r.bin, args...)
	cmd.Dir = r.tmp
	cmd.Env = append(os.Environ(), "GOMEMLIMIT=3GiB", "GOTRACEBACK=single")
	var so, se bytes.Buffer
	cmd.Stdout, cmd.Stderr = &so, &se
	err := cmd.Run()
	out := so.String()
	var res ReplayResult
	if i := strings.LastIndex(out, "\nRESULT "); i >= 0 {
		line := out[i+8:]
		if j := strings.IndexByte(line, '\n'); j >= 0 {
			line = line[:j]
		}
		if json.Unmarshal([]byte(line), &res) == nil {
			return &res, out, nil
		}
	}
	if ctx.Err() != nil {
		return &ReplayResult{Outcome: "hang"}, out + se.String(), nil
	}
	e := se.String()
	if len(e) > 4000 {
		e = e[:4000]
	}
	return &ReplayResult{Outcome: "crash", Msg: e}, out + e, err
}

type Known struct {
	Property string `json:"property"`
	Status   string `json:"status"` // known | fixed
	Key      string `json:"key"`    // obligation name
	Match    string `json:"match"`  // substring of the failure message ("" = any)
	What     string `json:"what"`
}

func (r *Replayer) known() []Known {
	var ks []Known
	b, err := os.ReadFile(filepath.Join(r.verif, "known_findings.json"))
	if err == nil {
		var doc struct{ Findings []Known }
		json.Unmarshal(b, &doc)
		ks = doc.Findings
	}
	return ks
}

type violation struct {
	obligation string
	msg        string
	inputs     map[string]string
	replayed   bool
	source     string
}

func (r *Replayer) decide(reports []HarnessReport, cands []Candidate, degraded []string, s *Summary) int {
	<-r.done
	if r.err != nil {
		fmt.Fprintln(os.Stderr, "govc: replay build:", r.err)
		return 2
	}
	var viols []violation
	seen := map[string]bool{}
	repl := map[string]bool{} // obligations refuted by the solver
	confirmed := map[string]bool{}
	replays := 0
	for _, c := range cands {
		name := c.Harness + "/" + c.Label
		repl[name] = true
		if confirmed[name] {
			continue
		}
		f := filepath.Join(r.tmp, "cand.json")
		b, _ := json.Marshal(map[string]any{"harness": c.Harness, "inputs": c.Inputs})
		os.WriteFile(f, b, 0644)
		res, out, _ := r.exec(30*time.Second, "replay", f)
		replays++
		_ = out
		switch res.Outcome {
		case "fail", "crash", "hang":
			confirmed[name] = true
			in := map[string]string{}
			for k, v := range c.Inputs {
				in[k] = fmt.Sprint(v)
			}
			lbl := res.Label
			if lbl == "" {
				lbl = res.Outcome
			}
			viols = append(viols, violation{obligation: c.Harness + "/" + lbl, msg: strings.TrimSpace(res.Msg), inputs: in, replayed: true, source: "solver model replayed on the real code"})
			seen[name] = true
		}
	}
	// concrete search, in parallel over harnesses
	searchS := 3.0
	if s.tier == "thorough" {
		searchS = 30
	}
	type sr struct {
		h   string
		res *ReplayResult
		out string
	}
	ch := make(chan sr, len(reports))
	sem := make(chan bool, 8)
	var wg sync.WaitGroup
	for _, rep := range reports {
		wg.Add(1)
		go func(rep HarnessReport) {
			defer wg.Done()
			sem <- true
			defer func() { <-sem }()
			d := searchS
			if rep.Status == "sampled" {
				d *= 2
			} else if rep.Status != "proved" && rep.Status != "bounded" {
				d *= 4
			}
			res, out, _ := r.exec(time.Duration(d*float64(time.Second))+40*time.Second, "search", rep.Name, fmt.Sprint(r.seed), fmt.Sprint(d))
			ch <- sr{rep.Name, res, out}
		}(rep)
	}
	wg.Wait()
	close(ch)
	runs, valid := 0, 0
	for x := range ch {
		runs += x.res.Runs
		valid += x.res.Valid
		switch x.res.Outcome {
		case "fail":
			for _, f := range append([]ReplayResult{*x.res}, x.res.Failures...) {
				nm := x.h + "/" + f.Label
				if seen[nm+f.Msg] {
					continue
				}
				seen[nm+f.Msg] = true
				confirmed[nm] = true
				viols = append(viols, violation{obligation: nm, msg: f.Msg, inputs: f.Inputs, replayed: true, source: "concrete counterexample search on the real code"})
			}
		case "crash", "hang":
			nm := x.h + "/" + x.res.Outcome
			viols = append(viols, violation{obligation: nm, msg: x.res.Msg, inputs: nil, replayed: true, source: "concrete search: process " + x.res.Outcome})
		}
	}
	for _, c := range cands {
		name := c.Harness + "/" + c.Label
		anyH := false
		for k := range confirmed {
			if strings.HasPrefix(k, c.Harness+"/") {
				anyH = true
			}
		}
		if c.Tainted || confirmed[name] || anyH || seen["u:"+name] {
			continue
		}
		seen["u:"+name] = true
		in := map[string]string{}
		for k, v := range c.Inputs {
			in[k] = fmt.Sprint(v)
		}
		viols = append(viols, violation{obligation: name, msg: c.Msg, inputs: in, replayed: false, source: "solver model (did not replay)"})
	}
	// ---- known findings ----
	var fresh []violation
	knownHit := map[string]Known{}
	for _, v := range viols {
		hit := false
		for _, k := range r.known() {
			if k.Property == r.prop && k.Status == "known" && k.Key == v.obligation && (k.Match == "" || strings.Contains(v.msg, k.Match)) {
				hit = true
				knownHit[k.Key+k.Match] = k
			}
		}
		if !hit && strings.Contains(v.obligation, "/contract:") {
			// a contract assumed elsewhere no longer describes its function: not a violation of the property
			degraded = append(degraded, v.obligation+": contract does not hold")
			hit = true
		}
		if !hit {
			fresh = append(fresh, v)
		}
	}
	for _, k := range knownHit {
		fmt.Printf("KNOWN-FINDING: property=%s %s\n", r.prop, k.What)
	}
	// ---- evidence ----
	level := "proof"
	assumptions := []string{
		"the govc engine (symbolic executor for go/ssa, term simplifier) and the SMT solvers are correct",
		"the trusted models of standard-library functions listed in coverage.trusted_base behave as the library does",
		"goroutines of the text assembler are explored under one deterministic schedule",
		"map iteration is explored in insertion order",
	}
	bounded, sampled := []string{}, []string{}
	for _, rep := range reports {
		if rep.Status == "bounded" {
			bounded = append(bounded, rep.Name)
		}
		if rep.Status == "sampled" {
			sampled = append(sampled, rep.Name)
		}
	}
	var tb []string
	for _, t := range sorted(s.trusted) {
		tb = append(tb, "model of "+t)
	}
	ev := map[string]any{
		"property": r.prop, "tier": s.tier, "seed": r.seed, "level": level,
		"coverage": map[string]any{
			"obligations": s.total, "discharged": s.discharged,
			"checker_cmd":              fmt.Sprintf("govc -prop %s -tier %s (z3 4.8.12 incremental; z3-new, cvc5 fallback)", r.prop, s.tier),
			"trusted_base":             tb,
			"functions_under_contract": sorted(s.called),
			"contracts_used":           sorted(s.contracts),
			"harnesses":                reports,
			"bounded_harnesses":        bounded,
			"sampled_not_proved":       sampled,
			"undecided_or_incomplete":  degraded,
			"solver_queries":           s.ex.queries, "solver_time_s": s.ex.solverTime.Seconds(), "discharged_by_backend": s.ex.backends,
			"native_replays": replays, "native_search_runs": runs, "native_search_valid": valid,
		},
		"assumptions": assumptions,
		"wall_s":      time.Since(s.t0).Seconds(),
		"violations":  len(fresh),
	}
	if s.only == "" {
		os.MkdirAll(filepath.Join(r.verif, "evidence"), 0755)
		b, _ := json.MarshalIndent(ev, "", " ")
		os.WriteFile(filepath.Join(r.verif, "evidence", r.prop+".json"), b, 0644)
	}
	fmt.Printf("%s: obligations %d discharged %d; native runs %d valid %d; wall %.1fs (load %.1fs, solver %.1fs)\n", r.prop, s.total, s.discharged, runs, valid, time.Since(s.t0).Seconds(), s.loadS, s.ex.solverTime.Seconds())
	if len(degraded) > 0 {
		fmt.Println("undecided or incomplete:", strings.Join(degraded, ", "))
	}
	if len(fresh) == 0 {
		return 0
	}
	dir := filepath.Join(r.verif, "evidence", "replay")
	os.MkdirAll(dir, 0755)
	anyReplayed := false
	for _, v := range fresh {
		if v.replayed {
			anyReplayed = true
		}
	}
	for i, v := range fresh {
		if anyReplayed && !v.replayed {
			continue
		}
		p := filepath.Join(dir, fmt.Sprintf("%s-%d.json", r.prop, i))
		b, _ := json.MarshalIndent(map[string]any{"property": r.prop, "obligation": v.obligation, "harness": strings.SplitN(v.obligation, "/", 2)[0], "inputs": v.inputs, "message": v.msg, "source": v.source,
			"how_to_replay": "bash /verif/check.sh replay <this file>"}, "", " ")
		os.WriteFile(p, b, 0644)
		fmt.Printf("failed obligation %s: %s\n", v.obligation, firstLine(v.msg))
		suffix := ""
		if !v.replayed {
			suffix = " no-failing-input-found"
		}
		fmt.Printf("VIOLATION property=%s replay=%s%s\n", r.prop, p, suffix)
	}
	return 1
}

func firstLine(s string) string {
	if i := strings.IndexByte(s, '\n'); i >= 0 {
		s = s[:i]
	}
	if len(s) > 300 {
		s = s[:300]
	}
	return s
}
