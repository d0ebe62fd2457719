package main

import (
	"fmt"
	"go/token"
	"go/types"
	"os"
	"sort"
	"strings"
	"sync"
	"time"

	"golang.org/x/tools/go/ssa"
)

// Machine executes one path at a time; decisions are taken from a prefix and then by the solver.
type Machine struct {
	w   *World
	tc  *TermCtx
	sol *Solver
	h   *Harness
	cfg *Config

	prefix   []uint64
	trace    []uint64
	pos      int
	alts     [][]uint64
	pc       []*Term
	lin      *linStore
	linCache map[*Term]*linForm
	flushed  int
	facts    map[*Term]bool
	model    *Model

	fresher int
	inputs  []*Input
	memoDec map[string][]*Term
	memo    map[string]any

	maxViewExpand int
	steps         int
	maxSteps      int
	depth         int
	deadline      time.Time

	globals  map[*ssa.Global]*value
	inited   map[*ssa.Package]bool
	natives  map[*ssa.Function]nativeModel
	noNative map[*ssa.Function]bool

	sched *sched

	// statistics for the current path
	asserts     int
	bounds      []string
	loopNotes   map[string]bool
	trusted     map[string]bool
	called      map[*ssa.Function]bool
	contractUse map[string]bool
	fileSys     map[string]*Seq

	wlog       []logEnt
	tainted    bool
	rounds     map[roundKey]*Term
	subst      map[*ssa.Function]*ssa.Function
	unroll     int
	unrollIn   map[string]int
	havocAfter int
	cur        *frame // fork profile only
	curPos     token.Pos
	accels     map[string]bool
	noAccel    map[string]bool

	results  *Results
	curLabel string
}

type Input struct {
	Name string
	Kind string // bool u8 u16 u32 u64 i64 int choice bytes string
	t    *Term
	seq  *Seq
	k    uint64
	list []*Term
}

type Obligation struct {
	Name    string
	Checked int // number of paths on which it was checked
	Trivial int // decided by the term simplifier
	Solver  int
	Refuted int
	Unknown int
	Msg     string
}

type Candidate struct {
	Harness string
	Label   string
	Msg     string
	Inputs  map[string]any
	Query   string
	Tainted bool
}

type Results struct {
	mu        sync.Mutex
	obl       map[string]*Obligation
	cands     []Candidate
	paths     int
	discarded int
	sampled   bool
	limits    map[string]int
	bounds    map[string]int
	trusted   map[string]bool
	called    map[string]bool
	contracts map[string]bool
	accels    map[string]bool
	covers    map[string]int
	dlog      []string
}

func NewResults() *Results {
	return &Results{obl: map[string]*Obligation{}, limits: map[string]int{}, bounds: map[string]int{}, trusted: map[string]bool{}, called: map[string]bool{}, contracts: map[string]bool{}, accels: map[string]bool{}, covers: map[string]int{}}
}

func (r *Results) obligation(name string) *Obligation {
	o := r.obl[name]
	if o == nil {
		o = &Obligation{Name: name}
		r.obl[name] = o
	}
	return o
}

func (m *Machine) fresh(name string, w int) *Term {
	m.fresher++
	return m.tc.Var(fmt.Sprintf("%s!%d.%d", name, m.fresher, w), w)
}

func (m *Machine) addPC(t *Term) {
	if t.isTrue() {
		return
	}
	m.pc = append(m.pc, t)
	m.learn(t, true)
}

func (m *Machine) learn(t *Term, v bool) {
	m.facts[t] = v
	if t.op == OUlt || t.op == OSlt || t.op == OEq {
		m.lin.learn(t, v)
	}
	if t.op == ONot {
		m.learn(t.a, !v)
		return
	}
	if v && t.op == OAnd {
		m.learn(t.a, true)
		m.learn(t.b, true)
	}
	if !v && t.op == OOr {
		m.learn(t.a, false)
		m.learn(t.b, false)
	}
}

func (m *Machine) flush() {
	for ; m.flushed < len(m.pc); m.flushed++ {
		m.sol.Assert(m.pc[m.flushed])
	}
}

// check decides PC /\ extra.
func (m *Machine) check(extra *Term, hard bool) (SatRes, *Model) {
	if !m.deadline.IsZero() && time.Now().After(m.deadline) {
		panic(pathEnd{kind: "limit", msg: "time budget exhausted"})
	}
	if m.linRefutes(extra) {
		return Unsat, nil
	}
	m.flush()
	return m.sol.Check(extra, true, hard)
}

// linRefutes reports whether the linear facts of the path contradict extra.
func (m *Machine) linRefutes(extra *Term) bool {
	if extra == nil || !m.lin.refutes(extra, true) {
		return false
	}
	if linCheck {
		m.flush()
		if r, _ := m.sol.Check(extra, false, true); r == Sat {
			panic(fmt.Sprintf("linear procedure disagrees with the solver on %v", extra))
		}
	}
	m.sol.queries++
	m.sol.backend["linear"]++
	return true
}

func (m *Machine) modelSays(t *Term) (bool, bool) {
	if m.model == nil {
		return false, false
	}
	v := m.model.eval(t, map[*Term]uint64{})
	return v == 1, true
}

func (m *Machine) known(c *Term) (bool, bool) {
	if c.op == OConst {
		return c.k == 1, true
	}
	if v, ok := m.facts[c]; ok {
		return v, true
	}
	if c.op == ONot {
		if v, ok := m.known(c.a); ok {
			return !v, true
		}
	}
	if c.op == OAnd {
		a, ok1 := m.known(c.a)
		b, ok2 := m.known(c.b)
		if (ok1 && !a) || (ok2 && !b) {
			return false, true
		}
		if ok1 && ok2 {
			return true, true
		}
	}
	if c.op == OOr {
		a, ok1 := m.known(c.a)
		b, ok2 := m.known(c.b)
		if (ok1 && a) || (ok2 && b) {
			return true, true
		}
		if ok1 && ok2 {
			return false, true
		}
	}
	return false, false
}

// branch decides a condition, forking the path when both outcomes are feasible.
func (m *Machine) branch(c *Term) bool {
	if v, ok := m.known(c); ok {
		return v
	}
	if m.pos < len(m.prefix) {
		v := m.prefix[m.pos] == 1
		m.pos++
		m.trace = append(m.trace, b2u(v))
		m.take(c, v)
		return v
	}
	nc := m.tc.Not(c)
	v, ok := m.modelSays(c)
	if !ok {
		r, mod := m.check(c, false)
		switch r {
		case Unsat:
			m.record(0)
			m.take(c, false)
			return false
		case Sat:
			m.model = mod
			v = true
		case Unknown:
			v = true
		}
	}
	// v side feasible; other side?
	other := nc
	if !v {
		other = c
	}
	r, _ := m.checkNoModel(other)
	if r != Unsat {
		if forkProf {
			m.noteFork(c)
		}
		alt := append(append([]uint64{}, m.trace...), b2u(!v))
		m.alts = append(m.alts, alt)
	}
	m.record(b2u(v))
	m.take(c, v)
	return v
}

func (m *Machine) checkNoModel(extra *Term) (SatRes, *Model) {
	if !m.deadline.IsZero() && time.Now().After(m.deadline) {
		panic(pathEnd{kind: "limit", msg: "time budget exhausted"})
	}
	if m.linRefutes(extra) {
		return Unsat, nil
	}
	m.flush()
	return m.sol.Check(extra, false, false)
}

func b2u(b bool) uint64 {
	if b {
		return 1
	}
	return 0
}

func (m *Machine) record(d uint64) {
	m.trace = append(m.trace, d)
	m.pos++
	m.prefix = m.trace // beyond prefix
}

func (m *Machine) take(c *Term, v bool) {
	if v {
		m.addPC(c)
	} else {
		m.addPC(m.tc.Not(c))
	}
}

// choose makes an unconstrained n-way choice.
func (m *Machine) choose(n int) int {
	if n <= 1 {
		return 0
	}
	if m.pos < len(m.prefix) {
		v := m.prefix[m.pos]
		m.pos++
		m.trace = append(m.trace, v)
		return int(v)
	}
	for i := n - 1; i >= 1; i-- {
		m.alts = append(m.alts, append(append([]uint64{}, m.trace...), uint64(i)))
	}
	m.record(0)
	return 0
}

// concretize forks over the feasible values of t (at most limit of them).
func (m *Machine) concretize(t *Term, limit int) uint64 {
	if t.op == OConst {
		return t.k
	}
	for i := 0; ; i++ {
		if i > limit {
			m.noteBound(fmt.Sprintf("more than %d values", limit), t)
			panic(pathEnd{kind: "limit", msg: fmt.Sprintf("concretize: more than %d values for %v", limit, t)})
		}
		var v uint64
		if m.pos < len(m.prefix) {
			v = m.prefix[m.pos]
			m.pos++
			m.trace = append(m.trace, v)
			eq := m.tc.Eq(t, m.tc.BV(t.w, v))
			if x, ok := m.known(eq); ok {
				if x {
					return v
				}
				continue
			}
			d := m.prefix[m.pos]
			m.pos++
			m.trace = append(m.trace, d)
			m.take(eq, d == 1)
			if d == 1 {
				return v
			}
			continue
		}
		if m.model == nil {
			r, mod := m.check(nil, false)
			if r != Sat {
				if r == Unsat {
					panic(pathEnd{kind: "assume", msg: "infeasible"})
				}
				panic(pathEnd{kind: "limit", msg: "solver unknown in concretize"})
			}
			m.model = mod
		}
		v = m.model.eval(t, map[*Term]uint64{})
		m.record(v)
		eq := m.tc.Eq(t, m.tc.BV(t.w, v))
		if x, ok := m.known(eq); ok {
			if x {
				return v
			}
			continue
		}
		r, _ := m.checkNoModel(m.tc.Not(eq))
		if r != Unsat {
			m.alts = append(m.alts, append(append([]uint64{}, m.trace...), 0))
		}
		m.record(1)
		m.take(eq, true)
		return v
	}
}

func (m *Machine) assumeQuiet(c *Term) { // for fresh variables constrained satisfiably
	if c.isFalse() {
		panic(pathEnd{kind: "assume", msg: "false"})
	}
	m.addPC(c)
	m.model = nil
}

func (m *Machine) assume(c *Term) {
	if v, ok := m.known(c); ok {
		if !v {
			panic(pathEnd{kind: "assume", msg: "false"})
		}
		return
	}
	m.addPC(c)
	if m.pos < len(m.prefix) {
		m.model = nil
		return
	}
	if v, ok := m.modelSays(c); ok && v {
		return
	}
	m.model = nil
	r, mod := m.check(nil, false)
	if r == Unsat {
		panic(pathEnd{kind: "assume", msg: "infeasible"})
	}
	m.model = mod
}

// assertT checks an obligation and then assumes it.
func (m *Machine) assertT(label string, c *Term, msg func() string) {
	m.asserts++
	replay := m.pos < len(m.prefix)
	if v, ok := m.known(c); ok && v {
		if !replay {
			m.results.mu.Lock()
			o := m.results.obligation(m.h.Name + "/" + label)
			o.Checked++
			o.Trivial++
			m.results.mu.Unlock()
		}
		return
	}
	if replay {
		if c.isFalse() {
			panic(pathEnd{kind: "assume", msg: "assert false"})
		}
		m.addPC(c)
		m.model = nil
		return
	}
	nc := m.tc.Not(c)
	r, mod := m.check(nc, true)
	if r == Sat && len(m.sol.asserts) > 0 {
		// a refutation is decided twice
		if r2, mod2 := m.sol.Confirm(nc); r2 == Unsat || mod2 != nil {
			r, mod = r2, mod2
		}
	}
	m.results.mu.Lock()
	o := m.results.obligation(m.h.Name + "/" + label)
	o.Checked++
	o.Solver++
	switch r {
	case Sat:
		if m.tainted {
			o.Unknown++
		} else {
			o.Refuted++
		}
	case Unknown:
		o.Unknown++
	}
	m.results.mu.Unlock()
	if r == Sat {
		mm := ""
		if msg != nil {
			mm = msg()
		}
		m.candidate(label, mm, mod, nc)
	}
	if c.isFalse() {
		panic(pathEnd{kind: "assume", msg: "assert false"})
	}
	m.addPC(c)
	if r != Unsat {
		m.model = nil
		rr, mod := m.check(nil, false)
		if rr == Unsat {
			panic(pathEnd{kind: "assume", msg: "assert failed on all inputs of the path"})
		}
		m.model = mod
	}
}

func (m *Machine) candidate(label, msg string, mod *Model, extra *Term) {
	// prefer small lengths for symbolic-length inputs
	mod2 := mod
	var small *Term = m.tc.tt
	have := false
	for _, in := range m.inputs {
		if in.Kind == "bytes" || in.Kind == "string" {
			if n := m.seqLen(in.seq); n.op != OConst {
				small = m.tc.And(small, m.tc.Ult(n, m.tc.BV(64, 4096)))
				have = true
			}
		}
	}
	if have {
		e := small
		if extra != nil {
			e = m.tc.And(small, extra)
		}
		if r, x := m.check(e, false); r == Sat {
			mod2 = x
		}
	}
	if mod2 == nil {
		if r, x := m.check(extra, true); r == Sat {
			mod2 = x
		}
	}
	if mod2 == nil {
		return
	}
	vals := m.inputValues(mod2)
	m.results.mu.Lock()
	defer m.results.mu.Unlock()
	n := 0
	for _, c := range m.results.cands {
		if c.Harness == m.h.Name && c.Label == label {
			n++
		}
	}
	if n < 12 {
		m.results.cands = append(m.results.cands, Candidate{Harness: m.h.Name, Label: label, Msg: msg, Inputs: vals, Tainted: m.tainted})
	}
}

func (m *Machine) inputValues(mod *Model) map[string]any {
	memo := map[*Term]uint64{}
	out := map[string]any{}
	for _, in := range m.inputs {
		switch in.Kind {
		case "choice":
			out[in.Name] = in.k
		case "bytes", "string":
			out[in.Name] = fmt.Sprintf("%x", m.evalSeq(in.seq, mod, memo))
		case "int", "i64":
			out[in.Name] = fmt.Sprintf("%d", sx(mod.eval(in.t, memo), in.t.w))
		default:
			out[in.Name] = fmt.Sprintf("%d", mod.eval(in.t, memo))
		}
	}
	return out
}

func (m *Machine) evalSeq(s *Seq, mod *Model, memo map[*Term]uint64) []byte {
	var out []byte
	for i := range s.p {
		x := &s.p[i]
		switch x.k {
		case pLit:
			out = append(out, x.lit...)
		case pByte:
			out = append(out, byte(mod.eval(x.t, memo)))
		case pRep:
			n := mod.eval(x.n, memo)
			b := byte(mod.eval(x.t, memo))
			for j := uint64(0); j < n && j < 1<<20; j++ {
				out = append(out, b)
			}
		case pDec:
			v := mod.eval(x.t, memo)
			if x.signed {
				out = append(out, fmt.Sprintf("%d", sx(v, x.t.w))...)
			} else {
				out = append(out, fmt.Sprintf("%d", v)...)
			}
		case pView:
			n := mod.eval(x.n, memo)
			off := mod.eval(x.off, memo)
			for j := uint64(0); j < n && j < 1<<20; j++ {
				b := byte(x.t.lo8())
				if mm := mod.arrs[x.t.name]; mm != nil {
					if v, ok := mm[off+j]; ok {
						b = v
					}
				}
				out = append(out, b)
			}
		}
	}
	return out
}

func (m *Machine) noteBound(what string, t *Term) {
	m.bounds = append(m.bounds, what)
}

func (m *Machine) rtPanic(msg string) {
	panic(targetPanic{iface{t: m.w.runtimeErrorType(), v: litSeq(msg)}})
}

func (m *Machine) panicString(v value) string {
	if x, ok := v.(iface); ok {
		if x.t == nil {
			return "nil"
		}
		if s, ok := x.v.(*Seq); ok {
			return s.String()
		}
		defer func() { recover() }()
		s := m.errString(x)
		return s.String()
	}
	return fmt.Sprintf("%v", v)
}

// runPath executes the harness along prefix.
func (m *Machine) runPath(prefix []uint64) (end pathEnd) {
	m.prefix = prefix
	m.trace = nil
	m.pos = 0
	m.alts = nil
	m.pc = m.pc[:0]
	m.flushed = 0
	m.facts = map[*Term]bool{}
	if m.linCache == nil {
		m.linCache = map[*Term]*linForm{}
	}
	m.lin = newLinStore(m.linCache)
	m.model = nil
	m.fresher = 0
	m.inputs = nil
	m.memoDec = map[string][]*Term{}
	m.memo = map[string]any{}
	m.steps = 0
	m.depth = 0
	m.globals = map[*ssa.Global]*value{}
	m.inited = map[*ssa.Package]bool{}
	m.asserts = 0
	m.bounds = nil
	m.loopNotes = map[string]bool{}
	m.fileSys = map[string]*Seq{}
	m.wlog = m.wlog[:0]
	m.tainted = false
	m.rounds = nil
	m.subst = map[*ssa.Function]*ssa.Function{}
	m.unroll = m.cfg.Unroll
	m.havocAfter = 8
	m.unrollIn = map[string]int{}
	m.accels = map[string]bool{}
	m.sched = newSched(m)
	m.sol.Reset()

	done := make(chan pathEnd, 1)
	go func() {
		var e pathEnd
		defer func() {
			done <- e
		}()
		e = m.guard(func() {
			m.call(m.h.Fn, nil, nil)
			m.endOfHarness()
		})
	}()
	end = <-done
	m.sched.killAll()
	return end
}

// guard runs f, turning host panics into path ends.
func (m *Machine) guard(f func()) (e pathEnd) {
	defer func() {
		r := recover()
		switch x := r.(type) {
		case nil:
		case pathEnd:
			e = x
		case targetPanic:
			e = m.escapedPanic(x)
		default:
			// a defect of the engine: the path is not decided
			if os.Getenv("GOVC_DEBUG") != "" {
				panic(r)
			}
			e = pathEnd{kind: "unsupported", msg: fmt.Sprintf("engine: %v", r)}
		}
	}()
	f()
	return pathEnd{kind: "done", msg: ""}
}

func (m *Machine) escapedPanic(x targetPanic) (e pathEnd) {
	defer func() {
		if r := recover(); r != nil {
			if y, ok := r.(pathEnd); ok {
				e = y
			} else {
				panic(r)
			}
		}
	}()
	msg := m.panicString(x.v)
	m.results.mu.Lock()
	o := m.results.obligation(m.h.Name + "/no-panic")
	if m.tainted {
		o.Unknown++
	} else {
		o.Refuted++
	}
	o.Checked++
	o.Msg = msg
	m.results.mu.Unlock()
	r, mod := m.check(nil, true)
	if r == Sat {
		m.candidate("no-panic", "panic: "+msg, mod, nil)
	} else if r == Unsat {
		m.results.mu.Lock()
		if m.tainted {
			o.Unknown--
		} else {
			o.Refuted--
		}
		m.results.mu.Unlock()
		return pathEnd{kind: "assume", msg: "infeasible"}
	}
	return pathEnd{kind: "done", msg: "panic"}
}

func (m *Machine) endOfHarness() {
	if m.pos < len(m.prefix) {
		// should not happen: nondeterministic re-execution
		panic(pathEnd{kind: "limit", msg: "re-execution diverged"})
	}
	m.results.mu.Lock()
	o := m.results.obligation(m.h.Name + "/no-panic")
	o.Checked++
	o.Trivial++
	m.results.mu.Unlock()
}

func typeName(t types.Type) string {
	return types.TypeString(t, func(p *types.Package) string { return p.Name() })
}

func sortedKeys[V any](mm map[string]V) []string {
	var ks []string
	for k := range mm {
		ks = append(ks, k)
	}
	sort.Strings(ks)
	return ks
}

var _ = strings.TrimSpace
