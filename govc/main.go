package main

import (
	"encoding/json"
	"flag"
	"fmt"
	"os"
	"path/filepath"
	"runtime/debug"
	"sort"
	"strconv"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

type job struct {
	h      *Harness
	prefix []uint64
}

type hstate struct {
	queue   [][]uint64
	paths   int
	active  int
	capped  bool
	res     *Results
	wall    time.Duration
	used    time.Duration
	start   time.Time
	steps   int
	gen     int
	noAccel map[string]bool
	failed  map[string]string
}

type Explorer struct {
	w          *World
	cfg        *Config
	mu         sync.Mutex
	cond       *sync.Cond
	order      []*Harness
	active     int
	hs         map[*Harness]*hstate
	deadline   time.Time
	maxPaths   int
	solverTime time.Duration
	queries    int
	backends   map[string]int
	verbose    bool
}

func (e *Explorer) run(hs []*Harness) {
	e.cond = sync.NewCond(&e.mu)
	e.hs = map[*Harness]*hstate{}
	e.backends = map[string]int{}
	e.order = hs
	for _, h := range hs {
		e.hs[h] = &hstate{res: NewResults(), queue: [][]uint64{nil}, noAccel: map[string]bool{}, failed: map[string]string{}}
	}
	var wg sync.WaitGroup
	for i := 0; i < e.cfg.Workers; i++ {
		wg.Add(1)
		go func() {
			defer wg.Done()
			e.worker()
		}()
	}
	wg.Wait()
}

// next picks the waiting harness that has used the least time so far.
func (e *Explorer) next() *Harness {
	var best *Harness
	for _, h := range e.order {
		st := e.hs[h]
		if len(st.queue) == 0 {
			continue
		}
		if best == nil || st.used < e.hs[best].used {
			best = h
		}
	}
	return best
}

func (e *Explorer) newMachine() *Machine {
	m := &Machine{w: e.w, tc: NewTermCtx(), sol: NewSolver(), cfg: e.cfg,
		natives: map[*ssa.Function]nativeModel{}, noNative: map[*ssa.Function]bool{}, maxSteps: e.cfg.MaxSteps, maxViewExpand: e.cfg.MaxViewExpand,
		trusted: map[string]bool{}, called: map[*ssa.Function]bool{}, contractUse: map[string]bool{}}
	return m
}

func (e *Explorer) worker() {
	m := e.newMachine()
	n := 0
	defer func() {
		e.mu.Lock()
		e.solverTime += m.sol.time
		e.queries += m.sol.queries
		for k, v := range m.sol.backend {
			e.backends[k] += v
		}
		e.mu.Unlock()
		m.sol.kill()
	}()
	for {
		e.mu.Lock()
		var h *Harness
		for {
			h = e.next()
			if h != nil || e.active == 0 {
				break
			}
			e.cond.Wait()
		}
		if h == nil {
			e.mu.Unlock()
			e.cond.Broadcast()
			return
		}
		st := e.hs[h]
		prefix := st.queue[len(st.queue)-1]
		st.queue = st.queue[:len(st.queue)-1]
		if st.start.IsZero() {
			st.start = time.Now()
		}
		if st.paths >= e.maxPaths || time.Now().After(e.deadline) {
			st.capped = true
			st.queue = nil
			e.mu.Unlock()
			continue
		}
		st.paths++
		st.active++
		e.active++
		gen := st.gen
		m.noAccel = st.noAccel
		m.results = st.res
		e.mu.Unlock()

		n++
		m.tc = NewTermCtx() // the same terms for the same prefix, whatever ran before
		m.linCache = nil
		if n%20 == 0 {
			m.sol.kill()
			m.sol.start()
		}
		m.h = h
		m.deadline = e.deadline
		m.trusted = map[string]bool{}
		m.called = map[*ssa.Function]bool{}
		m.contractUse = map[string]bool{}
		t0 := time.Now()
		end := e.safeRun(m, prefix)
		if len(m.trace) < len(prefix) && end.kind != "engine" {
			end = pathEnd{kind: "limit", msg: "re-execution diverged"}
		}
		if e.verbose {
			fmt.Fprintf(os.Stderr, "  path %s %v -> %s %s %s (%d steps)\n", h.Name, prefix, end.kind, end.msg, end.why, m.steps)
		}
		res := m.results
		res.mu.Lock()
		res.paths++
		switch end.kind {
		case "done", "induct", "bound", "accelfail":
		case "assume":
			res.discarded++
		case "sample":
			res.sampled = true
		default:
			res.limits[end.kind+": "+end.msg]++
		}
		for _, b := range m.bounds {
			res.bounds[b]++
		}
		for k := range m.trusted {
			res.trusted[k] = true
		}
		for k := range m.contractUse {
			res.contracts[k] = true
		}
		for k := range m.accels {
			res.accels[k] = true
		}
		for f := range m.called {
			nm := f.String()
			if strings.Contains(nm, repoMod) {
				res.called[nm] = true
			}
		}
		res.mu.Unlock()

		e.mu.Lock()
		st.active--
		st.used += time.Since(t0)
		if gen == st.gen {
			if end.kind == "accelfail" {
				// the inferred invariant is not inductive: start again without it
				na := map[string]bool{end.msg: true}
				for k := range st.noAccel {
					na[k] = true
				}
				st.noAccel = na
				st.failed[end.msg] = end.why
				st.gen++
				st.res = NewResults()
				st.paths, st.steps = 0, 0
				st.queue = [][]uint64{nil}
				st.capped = false
			} else {
				st.queue = append(st.queue, m.alts...)
				st.steps += m.steps
			}
		}
		st.wall = time.Since(st.start)
		e.active--
		e.mu.Unlock()
		e.cond.Broadcast()
	}
}

func (e *Explorer) safeRun(m *Machine, prefix []uint64) (end pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			if os.Getenv("GOVC_DEBUG") != "" {
				fmt.Fprintf(os.Stderr, "engine panic: %v\n%s\n", r, debug.Stack())
			}
			end = pathEnd{kind: "engine", msg: fmt.Sprint(r)}
		}
	}()
	return m.runPath(prefix)
}

type HarnessReport struct {
	Name        string            `json:"name"`
	Paths       int               `json:"paths"`
	Discarded   int               `json:"paths_infeasible_or_assumed_away"`
	Obligations []*Obligation     `json:"obligations"`
	Limits      map[string]int    `json:"limits,omitempty"`
	Bounds      map[string]int    `json:"bounds,omitempty"`
	Covers      map[string]int    `json:"covers,omitempty"`
	Capped      bool              `json:"path_cap_hit,omitempty"`
	WallS       float64           `json:"wall_s"`
	Steps       int               `json:"instructions"`
	Status      string            `json:"status"`
	Invariants  []string          `json:"loop_invariants_proved,omitempty"`
	InvFailed   map[string]string `json:"loops_unrolled,omitempty"`
}

func main() {
	prop := flag.String("prop", "", "property id")
	only := flag.String("harness", "", "single harness (debug)")
	verifDir := flag.String("verif", "/verif", "verification directory")
	tier := flag.String("tier", envOr("VERIF_TIER", "quick"), "quick|thorough")
	verbose := flag.Bool("v", false, "verbose")
	noReplay := flag.Bool("noreplay", false, "no native replay (debug)")
	workers := flag.Int("workers", 8, "")
	replay := flag.String("replay", "", "replay the inputs in this file")
	budget := flag.Int("budget", 0, "exploration budget (s)")
	flag.Parse()
	os.Exit(run(*prop, *only, *verifDir, *tier, *verbose, *noReplay, *workers, *budget, *replay))
}

func envOr(k, d string) string {
	if v := os.Getenv(k); v != "" {
		return v
	}
	return d
}

func run(prop, only, verifDir, tier string, verbose, noReplay bool, workers, budget int, replay string) int {
	t0 := time.Now()
	seed, _ := strconv.Atoi(envOr("VERIF_SEED", "1"))
	hdir := filepath.Join(verifDir, "harness")
	rp := NewReplayer(verifDir, hdir, prop, seed)
	defer rp.cleanup()
	w, ov, err := LoadAll(hdir)
	if err != nil {
		fmt.Fprintln(os.Stderr, "govc: cannot load:", err)
		return 2
	}
	if !noReplay || replay != "" {
		rp.startBuild(ov)
	}
	if replay != "" {
		return rp.replayFile(replay)
	}
	loadS := time.Since(t0).Seconds()
	var hs []*Harness
	if only != "" {
		for _, n := range strings.Split(only, ",") {
			h := w.harness[n]
			if h == nil {
				fmt.Fprintln(os.Stderr, "no such harness", n)
				return 2
			}
			hs = append(hs, h)
		}
	} else {
		hs = w.harnesses(prop)
	}
	var lost []string
	for n := range ov.lost {
		if strings.HasPrefix(n, prop+"_") {
			lost = append(lost, n+": does not compile against this tree")
		}
	}
	sort.Strings(lost)
	for _, d := range ov.dropped {
		fmt.Println("left out:", d)
	}
	if len(hs) == 0 && len(lost) == 0 {
		fmt.Fprintln(os.Stderr, "no harness for", prop)
		return 2
	}
	if budget == 0 {
		budget = 300
		if tier == "thorough" {
			budget = 3000
		}
	}
	cfg := &Config{LoopLimit: 20000, MaxSteps: 20000000, MaxViewExpand: 40, Unroll: 40, Workers: workers}
	ex := &Explorer{w: w, cfg: cfg, deadline: time.Now().Add(time.Duration(budget) * time.Second), maxPaths: 60000, verbose: verbose}
	ex.run(hs)

	// ---- collect ----
	var reports []HarnessReport
	trusted := map[string]bool{}
	called := map[string]bool{}
	contracts := map[string]bool{}
	var cands []Candidate
	total, discharged := 0, 0
	degraded := lost
	for _, h := range hs {
		st := ex.hs[h]
		r := st.res
		rep := HarnessReport{Name: h.Name, Paths: r.paths, Discarded: r.discarded, Limits: r.limits, Bounds: r.bounds, Covers: r.covers, Capped: st.capped, WallS: st.wall.Seconds(), Steps: st.steps, Invariants: sorted(r.accels), InvFailed: st.failed}
		complete := len(r.limits) == 0 && !st.capped
		status := "proved"
		if !complete {
			status = "incomplete"
		} else if len(r.bounds) > 0 {
			status = "bounded"
		}
		for _, k := range sortedKeys(r.obl) {
			o := r.obl[k]
			rep.Obligations = append(rep.Obligations, o)
			total += o.Checked
			discharged += o.Checked - o.Refuted - o.Unknown
			if o.Refuted > 0 {
				status = "refuted"
			} else if o.Unknown > 0 && status != "refuted" {
				status = "undecided"
			}
		}
		nonNoPanic := 0
		for _, o := range rep.Obligations {
			if !strings.HasSuffix(o.Name, "/no-panic") {
				nonNoPanic += o.Checked
			}
		}
		if r.paths-r.discarded == 0 && status != "refuted" {
			status = "vacuous"
		}
		if r.sampled && status != "refuted" {
			status = "sampled" // not within the verifier's reach: concrete histories only
		}
		if status != "proved" && status != "bounded" && status != "sampled" {
			degraded = append(degraded, h.Name+": "+status)
		}
		rep.Status = status
		for k := range r.trusted {
			trusted[k] = true
		}
		for k := range r.called {
			called[k] = true
		}
		for k := range r.contracts {
			contracts[k] = true
		}
		cands = append(cands, r.cands...)
		reports = append(reports, rep)
	}
	for _, r := range reports {
		n := 0
		for _, o := range r.Obligations {
			n += o.Checked
		}
		fmt.Printf("%-40s %-10s paths=%-5d obligations=%-6d %.1fs\n", r.Name, r.Status, r.Paths, n, r.WallS)
		for _, o := range r.Obligations {
			if o.Refuted > 0 || o.Unknown > 0 {
				fmt.Printf("    %s refuted=%d unknown=%d %s\n", o.Name, o.Refuted, o.Unknown, o.Msg)
			}
		}
		for _, k := range sortedKeys(r.Limits) {
			fmt.Printf("    limit: %s (%d)\n", k, r.Limits[k])
		}
		if len(r.InvFailed) > 0 && verbose {
			fmt.Printf("    not inductive: %v\n", r.InvFailed)
		}
		for _, k := range sortedKeys(r.Bounds) {
			fmt.Printf("    bound: %s (%d)\n", k, r.Bounds[k])
		}
	}
	if forkProf {
		dumpForks()
	}
	if noReplay {
		for _, c := range cands {
			b, _ := json.Marshal(c)
			fmt.Println("candidate:", string(b))
		}
		fmt.Printf("load %.1fs total %.1fs solver %.1fs queries %d %v\n", loadS, time.Since(t0).Seconds(), ex.solverTime.Seconds(), ex.queries, ex.backends)
		return 0
	}
	return rp.decide(reports, cands, degraded, &Summary{total: total, discharged: discharged, trusted: trusted, called: called, contracts: contracts, tier: tier, ex: ex, t0: t0, loadS: loadS, only: only})
}

type Summary struct {
	total, discharged          int
	trusted, called, contracts map[string]bool
	tier                       string
	ex                         *Explorer
	t0                         time.Time
	loadS                      float64
	only                       string
}

func sorted(m map[string]bool) []string {
	var k []string
	for x := range m {
		k = append(k, x)
	}
	sort.Strings(k)
	return k
}
