package main

import (
	"bufio"
	"bytes"
	"context"
	"fmt"
	"io"
	"math/bits"
	"os"
	"os/exec"
	"strconv"
	"strings"
	"time"
)

type SatRes int

const (
	Unsat SatRes = iota
	Sat
	Unknown
)

func (r SatRes) String() string { return [...]string{"unsat", "sat", "unknown"}[r] }

// Solver is one incremental z3 process.
type Solver struct {
	bin     string
	args    []string
	cmd     *exec.Cmd
	in      *bufio.Writer
	inc     io.WriteCloser
	out     *bufio.Reader
	defined map[*Term]bool
	vars    []*Term
	selects []*Term
	asserts []*Term
	queries int
	time    time.Duration
	dead    bool
	timeout int
	backend map[string]int
	log     io.Writer
}

func NewSolver() *Solver {
	s := &Solver{bin: "z3", args: []string{"-in", "-smt2"}, backend: map[string]int{}, timeout: 150}
	if f := os.Getenv("GOVC_SMTLOG"); f != "" {
		s.log, _ = os.Create(f)
	}
	s.start()
	return s
}

func (s *Solver) start() {
	s.cmd = exec.Command(s.bin, s.args...)
	w, _ := s.cmd.StdinPipe()
	r, _ := s.cmd.StdoutPipe()
	s.cmd.Stderr = nil
	if err := s.cmd.Start(); err != nil {
		panic(fmt.Sprintf("cannot start solver: %v", err))
	}
	s.inc = w
	s.in = bufio.NewWriterSize(w, 1<<16)
	s.out = bufio.NewReaderSize(r, 1<<16)
	s.send(fmt.Sprintf("(set-option :print-success false)\n(set-logic QF_AUFBV)\n"))
	s.defined = map[*Term]bool{}
	s.vars = nil
	s.selects = nil
	s.send("(push)\n")
}

func (s *Solver) kill() {
	if s.cmd != nil && s.cmd.Process != nil {
		s.cmd.Process.Kill()
		s.inc.Close()
		s.cmd.Wait()
	}
}

func (s *Solver) send(str string) {
	if s.log != nil {
		io.WriteString(s.log, str)
	}
	s.in.WriteString(str)
}

// Reset starts a new path.
func (s *Solver) Reset() {
	s.send("(pop)(push)\n")
	s.defined = map[*Term]bool{}
	s.vars = nil
	s.selects = nil
	s.asserts = s.asserts[:0]
}

// declVar declares a variable; 64-bit variables of a smaller range are zero-extended small ones.
func declVar(x *Term) string {
	if x.w == 64 && x.umax < 1<<56 && strings.HasSuffix(x.name, fmt.Sprintf(".%d-%d", x.umin, x.umax)) {
		n := bits.Len64(x.umax)
		if n == 0 {
			n = 1
		}
		r := ref(x)
		q := "|" + strings.Trim(r, "|") + "~|"
		return fmt.Sprintf("(declare-const %s (_ BitVec %d))\n(define-fun %s () (_ BitVec 64) ((_ zero_extend %d) %s))\n", q, n, r, 64-n, q)
	}
	return fmt.Sprintf("(declare-const %s %s)\n", ref(x), sortOf(x.w))
}

func ref(t *Term) string {
	switch t.op {
	case OConst:
		if t.w == 0 {
			if t.k == 1 {
				return "true"
			}
			return "false"
		}
		if t.w%4 == 0 {
			return fmt.Sprintf("#x%0*x", t.w/4, t.k)
		}
		return fmt.Sprintf("(_ bv%d %d)", t.k, t.w)
	case OVar:
		return "|" + t.name + "|"
	}
	return "t" + strconv.Itoa(t.id)
}

func sortOf(w int) string {
	switch {
	case w == 0:
		return "Bool"
	case w < 0:
		return "(Array (_ BitVec 64) (_ BitVec 8))"
	}
	return fmt.Sprintf("(_ BitVec %d)", w)
}

func body(t *Term) string {
	switch t.op {
	case OExtract:
		return fmt.Sprintf("((_ extract %d %d) %s)", t.hi, t.lo, ref(t.a))
	case OZext:
		return fmt.Sprintf("((_ zero_extend %d) %s)", t.w-t.a.w, ref(t.a))
	case OSext:
		return fmt.Sprintf("((_ sign_extend %d) %s)", t.w-t.a.w, ref(t.a))
	}
	var sb strings.Builder
	sb.WriteString("(" + opName[t.op])
	for _, x := range []*Term{t.a, t.b, t.c} {
		if x != nil {
			sb.WriteString(" " + ref(x))
		}
	}
	sb.WriteString(")")
	return sb.String()
}

// define emits definitions for a term DAG (iteratively, children first).
func (s *Solver) define(t *Term) {
	defTerm(t, s.defined, func(x *Term) {
		if x.op == OVar {
			s.send(declVar(x))
			if x.w >= 0 {
				s.vars = append(s.vars, x)
			}
		} else {
			s.send(fmt.Sprintf("(define-fun t%d () %s %s)\n", x.id, sortOf(x.w), body(x)))
			if x.op == OSelect {
				s.selects = append(s.selects, x)
				if x.a.ranged {
					s.send(rangeAxiom(x))
				}
			}
		}
	})
}

func defTerm(t *Term, done map[*Term]bool, emit func(*Term)) {
	if t.op == OConst || done[t] {
		return
	}
	stack := []*Term{t}
	for len(stack) > 0 {
		x := stack[len(stack)-1]
		if x.op == OConst || done[x] {
			stack = stack[:len(stack)-1]
			continue
		}
		ready := true
		for _, y := range []*Term{x.a, x.b, x.c} {
			if y != nil && y.op != OConst && !done[y] {
				stack = append(stack, y)
				ready = false
			}
		}
		if ready {
			emit(x)
			done[x] = true
			stack = stack[:len(stack)-1]
		}
	}
}

func (s *Solver) Assert(t *Term) {
	s.define(t)
	s.asserts = append(s.asserts, t)
	s.send("(assert " + ref(t) + ")\n")
}

func (s *Solver) readLine() (string, error) {
	l, err := s.out.ReadString('\n')
	return strings.TrimSpace(l), err
}

// restart starts a new process and restores the path condition in it.
func (s *Solver) restart() {
	s.kill()
	as := append([]*Term{}, s.asserts...)
	s.start()
	s.asserts = nil
	for _, a := range as {
		s.Assert(a)
	}
}

// Confirm decides a satisfiable query again, from scratch, in other processes.
func (s *Solver) Confirm(extra *Term) (SatRes, *Model) {
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	return s.oneShot(extra, true, true)
}

// Check decides the asserted path condition together with extra.
func (s *Solver) Check(extra *Term, wantModel bool, hard bool) (SatRes, *Model) {
	t0 := time.Now()
	defer func() { s.time += time.Since(t0) }()
	s.queries++
	if extra != nil {
		s.define(extra)
	}
	s.send("(push)\n")
	if extra != nil {
		s.send("(assert " + ref(extra) + ")\n")
	}
	s.send(fmt.Sprintf("(set-option :timeout %d)\n(check-sat)\n(set-option :timeout 4294967295)\n", s.timeout))
	s.in.Flush()
	res := Unknown
	type rd struct {
		l   string
		err error
	}
	ch := make(chan rd, 1)
	go func() {
		for {
			l, err := s.readLine()
			if err != nil || l == "sat" || l == "unsat" || l == "unknown" || l == "timeout" {
				ch <- rd{l, err}
				return
			}
			if strings.HasPrefix(l, "(error") {
				// a command was not executed (z3 may cancel one when a timer fires late): the state of
				// the process is not the path condition any more
				if os.Getenv("GOVC_SMTERR") != "" {
					fmt.Fprintln(os.Stderr, "solver:", l)
				}
				ch <- rd{l, fmt.Errorf("solver error")}
				return
			}
		}
	}()
	var r rd
	select {
	case r = <-ch:
	case <-time.After(time.Duration(s.timeout)*time.Millisecond*3 + 5*time.Second):
		r = rd{"", fmt.Errorf("hang")}
	}
	if r.err != nil {
		s.restart()
		return s.oneShot(extra, wantModel, hard)
	}
	switch r.l {
	case "sat":
		res = Sat
	case "unsat":
		res = Unsat
	}
	var m *Model
	if res == Sat && wantModel {
		if m = s.getModel(); m == nil {
			s.restart()
			return s.oneShot(extra, wantModel, hard)
		}
	}
	s.send("(pop)\n")
	// definitions made inside the push would vanish; all defines were sent before it.
	if res == Unknown {
		return s.oneShot(extra, wantModel, hard)
	}
	s.backend["z3-4.8.12"]++
	return res, m
}

func (s *Solver) getModel() *Model {
	m := &Model{vars: map[string]uint64{}, arrs: map[string]map[uint64]byte{}, arrDef: map[string]byte{}}
	var want []*Term
	want = append(want, s.vars...)
	for _, x := range s.selects {
		want = append(want, x)
		if x.b.op != OConst {
			want = append(want, x.b)
		}
	}
	if len(want) == 0 {
		return m
	}
	var sb strings.Builder
	sb.WriteString("(get-value (")
	for _, t := range want {
		sb.WriteString(ref(t) + " ")
	}
	sb.WriteString("))\n")
	s.send(sb.String())
	s.in.Flush()
	txt := readSexp(s.out)
	if strings.HasPrefix(strings.TrimSpace(txt), "(error") || !strings.HasSuffix(txt, ")") {
		return nil
	}
	vals := parseValues(txt)
	get := func(t *Term) uint64 {
		if t.op == OConst {
			return t.k
		}
		return vals[strings.Trim(ref(t), "|")]
	}
	for _, v := range s.vars {
		m.vars[v.name] = get(v)
	}
	for _, x := range s.selects {
		mm := m.arrs[x.a.name]
		if mm == nil {
			mm = map[uint64]byte{}
			m.arrs[x.a.name] = mm
		}
		mm[get(x.b)] = byte(get(x))
	}
	return m
}

func readSexp(r *bufio.Reader) string {
	var sb bytes.Buffer
	depth := 0
	started := false
	inBar := false
	for {
		b, err := r.ReadByte()
		if err != nil {
			break
		}
		sb.WriteByte(b)
		if inBar {
			if b == '|' {
				inBar = false
			}
			continue
		}
		switch b {
		case '|':
			inBar = true
		case '(':
			depth++
			started = true
		case ')':
			depth--
		}
		if started && depth == 0 {
			break
		}
	}
	return sb.String()
}

// parseValues parses ((name value) ...) with values #x.. #b.. true false (_ bvN w)
func parseValues(s string) map[string]uint64 {
	res := map[string]uint64{}
	toks := tokenize(s)
	i := 0
	next := func() string {
		if i < len(toks) {
			i++
			return toks[i-1]
		}
		return ""
	}
	next() // (
	for i < len(toks) && toks[i] == "(" {
		next()
		name := next()
		v := next()
		var u uint64
		switch {
		case v == "(":
			next() // _
			bv := next()
			u, _ = strconv.ParseUint(strings.TrimPrefix(bv, "bv"), 10, 64)
			next()
			next()
		case strings.HasPrefix(v, "#x"):
			u, _ = strconv.ParseUint(v[2:], 16, 64)
		case strings.HasPrefix(v, "#b"):
			u, _ = strconv.ParseUint(v[2:], 2, 64)
		case v == "true":
			u = 1
		}
		res[strings.Trim(name, "|")] = u
		next() // )
	}
	return res
}

func tokenize(s string) []string {
	var out []string
	for i := 0; i < len(s); {
		c := s[i]
		switch {
		case c == ' ' || c == '\n' || c == '\t' || c == '\r':
			i++
		case c == '(' || c == ')':
			out = append(out, string(c))
			i++
		case c == '|':
			j := strings.IndexByte(s[i+1:], '|')
			out = append(out, s[i:i+j+2])
			i += j + 2
		default:
			j := i
			for j < len(s) && !strings.ContainsRune(" \n\t\r()", rune(s[j])) {
				j++
			}
			out = append(out, s[i:j])
			i = j
		}
	}
	return out
}

// oneShot discharges the query with independent solver runs.
func (s *Solver) oneShot(extra *Term, wantModel bool, hard bool) (SatRes, *Model) {
	var sb strings.Builder
	sb.WriteString("(set-option :produce-models true)\n(set-logic QF_AUFBV)\n")
	done := map[*Term]bool{}
	var vars, selects []*Term
	emit := func(x *Term) {
		if x.op == OVar {
			sb.WriteString(declVar(x))
			if x.w >= 0 {
				vars = append(vars, x)
			}
		} else {
			fmt.Fprintf(&sb, "(define-fun t%d () %s %s)\n", x.id, sortOf(x.w), body(x))
			if x.op == OSelect {
				selects = append(selects, x)
				if x.a.ranged {
					sb.WriteString(rangeAxiom(x))
				}
			}
		}
	}
	for _, a := range s.asserts {
		defTerm(a, done, emit)
		fmt.Fprintf(&sb, "(assert %s)\n", ref(a))
	}
	if extra != nil {
		defTerm(extra, done, emit)
		fmt.Fprintf(&sb, "(assert %s)\n", ref(extra))
	}
	sb.WriteString("(check-sat)\n")
	base := sb.String()
	if d := os.Getenv("GOVC_SLOW"); d != "" {
		os.WriteFile(fmt.Sprintf("%s/q%d.smt2", d, time.Now().UnixNano()), []byte(base), 0644)
	}
	type backend struct {
		name string
		argv []string
	}
	all := []backend{{"cvc5-bv-as-int", []string{"cvc5", "--lang=smt2", "--produce-models", "--solve-bv-as-int=bv"}}, {"z3-new", []string{"z3-new", "-in", "-smt2"}}, {"cvc5", []string{"cvc5", "--lang=smt2", "--produce-models"}}, {"z3-4.8.12-oneshot", []string{"z3", "-in", "-smt2"}}}
	gv := ""
	var want []*Term
	want = append(want, vars...)
	for _, x := range selects {
		want = append(want, x)
		if x.b.op != OConst {
			want = append(want, x.b)
		}
	}
	if wantModel && len(want) > 0 {
		var g strings.Builder
		g.WriteString("(get-value (")
		for _, t := range want {
			g.WriteString(ref(t) + " ")
		}
		g.WriteString("))\n")
		gv = g.String()
	}
	type ans struct {
		name string
		res  SatRes
		out  string
	}
	var run func(bs []backend, limit time.Duration) (SatRes, *Model)
	run = func(bs []backend, limit time.Duration) (SatRes, *Model) {
		ctx, cancel := context.WithTimeout(context.Background(), limit)
		defer cancel()
		ch := make(chan ans, len(bs))
		for _, b := range bs {
			go func(b backend) {
				cmd := exec.CommandContext(ctx, b.argv[0], b.argv[1:]...)
				cmd.Stdin = strings.NewReader(base + gv + "(exit)\n")
				out, _ := cmd.Output()
				o := string(out)
				switch {
				case strings.HasPrefix(o, "sat"):
					ch <- ans{b.name, Sat, strings.TrimPrefix(o, "sat")}
				case strings.HasPrefix(o, "unsat"):
					ch <- ans{b.name, Unsat, ""}
				default:
					ch <- ans{b.name, Unknown, ""}
				}
			}(b)
		}
		for range bs {
			a := <-ch
			if a.res == Unknown {
				continue
			}
			s.backend[a.name]++
			if a.res == Unsat || !wantModel {
				return a.res, nil
			}
			m := &Model{vars: map[string]uint64{}, arrs: map[string]map[uint64]byte{}, arrDef: map[string]byte{}}
			vals := parseValues(strings.TrimSpace(a.out))
			get := func(t *Term) uint64 {
				if t.op == OConst {
					return t.k
				}
				return vals[strings.Trim(ref(t), "|")]
			}
			for _, v := range vars {
				m.vars[v.name] = get(v)
			}
			for _, x := range selects {
				mm := m.arrs[x.a.name]
				if mm == nil {
					mm = map[uint64]byte{}
					m.arrs[x.a.name] = mm
				}
				mm[get(x.b)] = byte(get(x))
			}
			return Sat, m
		}
		return Unknown, nil
	}
	if r, m := run(all[:2], 2*time.Second); r != Unknown {
		return r, m
	}
	limit := 10 * time.Second
	if hard {
		limit = 60 * time.Second
	}
	if r, m := run(all, limit); r != Unknown {
		return r, m
	}
	s.backend["unknown"]++
	return Unknown, nil
}

func rangeAxiom(x *Term) string {
	return fmt.Sprintf("(assert (and (bvuge t%d #x%02x) (bvule t%d #x%02x)))\n", x.id, x.a.umin, x.id, x.a.umax)
}
