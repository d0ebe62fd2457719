package main

import (
	"fmt"
	"go/types"
	"os"
	"strings"

	"golang.org/x/tools/go/ssa"
)

// Loop invariants are inferred and then checked as obligations.
//
// After a loop head has been reached several times on a path with undecided branches in between, the
// states at the last three arrivals (phis and every heap location or modelled object written since) are
// compared.  If each changes in a recognised way (unchanged, +constant, byte appended from / removed
// from a symbolic-length view, or an unconstrained integer), the state is replaced by its generic form
// after k more iterations, k >= 0 arbitrary.  The next arrival must then match the generic form for k+1
// (the induction step, an obligation); leaving the loop continues with the generic state.

type logKind uint8

const (
	lCell logKind = iota
	lModel
	lAlloc
	lBad
)

type logEnt struct {
	k    logKind
	cell *value
	old  value
	obj  any
}

func (m *Machine) logCell(p *value) {
	switch o := (*p).(type) {
	case structure:
		for i := range o {
			m.logCell(&o[i])
		}
		return
	case array:
		for i := range o {
			m.logCell(&o[i])
		}
		return
	}
	m.wlog = append(m.wlog, logEnt{k: lCell, cell: p, old: *p})
}

func (m *Machine) logModel(x any) {
	switch o := x.(type) {
	case *bufModel:
		m.wlog = append(m.wlog, logEnt{k: lModel, obj: o, old: *o})
	case *rdrModel:
		m.wlog = append(m.wlog, logEnt{k: lModel, obj: o, old: *o})
	case *bufioModel:
		m.wlog = append(m.wlog, logEnt{k: lModel, obj: o, old: *o})
	case *fileModel:
		m.wlog = append(m.wlog, logEnt{k: lModel, obj: o, old: *o})
	case *syncModel:
		m.wlog = append(m.wlog, logEnt{k: lModel, obj: o, old: *o})
	}
}

func (m *Machine) logAlloc(x any) { m.wlog = append(m.wlog, logEnt{k: lAlloc, obj: x}) }
func (m *Machine) logBad(x any)   { m.wlog = append(m.wlog, logEnt{k: lBad, obj: x}) }

func interior(set map[any]bool, x any) {
	if o, ok := x.(*value); ok {
		set[o] = true
		contents(set, *o)
		return
	}
	contents(set, x)
}

// contents adds the cells and models held directly in a value (pointers are not followed).
func contents(set map[any]bool, x any) {
	switch o := x.(type) {
	case structure:
		for i := range o {
			set[&o[i]] = true
			contents(set, o[i])
		}
	case array:
		for i := range o {
			set[&o[i]] = true
			contents(set, o[i])
		}
	case []value:
		for i := range o {
			set[&o[i]] = true
			contents(set, o[i])
		}
	case *bufModel, *rdrModel, *bufioModel, *fileModel, *syncModel:
		set[o] = true
	case *Map:
		set[o] = true
	case *RObj:
		set[o] = true
	}
}

// ---- per-loop tracking ----

type loopSnap struct {
	log, pc int
	phis    []value
}

type mismatch string

type loopTrack struct {
	redo         int
	count, trace int
	dead         bool
	hits         int
	snaps        []loopSnap
	tmpl         *loopTmpl
}

type relKind uint8

const (
	rSame relKind = iota
	rAff
	rSel
	rHavoc
	rApp
	rPop
	rFields
	rNone
)

type rel struct {
	k    relKind
	d    uint64 // step (two's complement in the width of the term)
	arr  *Term
	fld  []rel // rFields: per field of a model state
	prev value
	cur  value
}

type loopTmpl struct {
	k     *Term
	log   int
	phis  []rel
	locs  []any
	rels  []rel
	vals  []value // installed generic values
	pvals []value
	inv   []func(k *Term) *Term
	havoc bool
}

func (fi *fnInfo) header(fn *ssa.Function, b *ssa.BasicBlock) *loopInfo {
	fi.mu.Lock()
	defer fi.mu.Unlock()
	if fi.loops == nil {
		fi.loops = map[*ssa.BasicBlock]*loopInfo{}
		for _, h := range fn.Blocks {
			for _, p := range h.Preds {
				if !h.Dominates(p) {
					continue
				}
				li := fi.loops[h]
				if li == nil {
					li = &loopInfo{back: map[*ssa.BasicBlock]bool{}}
					fi.loops[h] = li
				}
				li.back[p] = true
				// natural loop body
				seen := map[*ssa.BasicBlock]bool{h: true}
				var walk func(b *ssa.BasicBlock)
				walk = func(b *ssa.BasicBlock) {
					if seen[b] {
						return
					}
					seen[b] = true
					for _, q := range b.Preds {
						walk(q)
					}
				}
				walk(p)
				for b := range seen {
					for _, in := range b.Instrs {
						switch in.(type) {
						case *ssa.Next, *ssa.Go, *ssa.Send, *ssa.Select, *ssa.Defer:
							li.bad = true
						}
					}
				}
			}
		}
	}
	return fi.loops[b]
}

type loopInfo struct {
	back map[*ssa.BasicBlock]bool
	bad  bool
}

// loopHead is called at each arrival at a loop head, after the phis have been set.
func (f *frame) loopHead(b *ssa.BasicBlock, nphi int) {
	li := f.fi.header(f.fn, b)
	if li == nil {
		return
	}
	m := f.m
	if f.loops == nil {
		f.loops = map[*ssa.BasicBlock]*loopTrack{}
	}
	t := f.loops[b]
	if f.prev == nil || !li.back[f.prev] || t == nil {
		f.loops[b] = &loopTrack{trace: len(m.trace), dead: li.bad || m.noAccel[loopSite(f.fn, b)]}
		return
	}
	t.count++
	if t.count > m.cfg.LoopLimit {
		panic(pathEnd{kind: "limit", msg: "loop limit"})
	}
	grew := len(m.trace) != t.trace
	t.trace = len(m.trace)
	if t.tmpl != nil {
		f.verifyTmpl(b, t, nphi)
		return
	}
	if grew {
		t.hits++
		for name, n := range m.unrollIn {
			if t.hits > n && strings.HasSuffix(f.fn.String(), name) {
				m.noteBound(fmt.Sprintf("loop in %s: %d iterations", f.fn, n), nil)
				panic(pathEnd{kind: "bound", msg: "unrolled"})
			}
		}
	}
	if t.dead {
		if m.noAccel[loopSite(f.fn, b)] && t.hits > m.unroll {
			m.noteBound(fmt.Sprintf("loop in %s unrolled %d times", f.fn, m.unroll), nil)
			panic(pathEnd{kind: "bound", msg: "unrolled"})
		}
		return
	}
	if !grew {
		t.snaps = nil
		return
	}
	s := loopSnap{log: len(m.wlog), pc: len(m.pc)}
	for i := 0; i < nphi; i++ {
		s.phis = append(s.phis, f.get(b.Instrs[i].(*ssa.Phi)))
	}
	t.snaps = append(t.snaps, s)
	if len(t.snaps) > 3 {
		t.snaps = t.snaps[1:]
	}
	if len(t.snaps) == 3 && t.count >= 3 {
		f.inferTmpl(b, t, nphi)
		t.trace = len(m.trace)
	}
	if t.tmpl == nil && t.count > 14 {
		t.dead = true
	}
}

func loopSite(fn *ssa.Function, b *ssa.BasicBlock) string {
	return fmt.Sprintf("%s#%d", fn, b.Index)
}

// locations written since log position p that existed at p.
func (m *Machine) writtenSince(p int) ([]any, bool) {
	fresh := map[any]bool{}
	for _, e := range m.wlog[p:] {
		if e.k == lAlloc {
			interior(fresh, e.obj)
		}
	}
	seen := map[any]bool{}
	var out []any
	for _, e := range m.wlog[p:] {
		var o any
		switch e.k {
		case lCell:
			o = e.cell
		case lModel:
			o = e.obj
		case lBad:
			if !fresh[e.obj] {
				return nil, false
			}
			continue
		default:
			continue
		}
		if !fresh[o] && !seen[o] {
			seen[o] = true
			out = append(out, o)
		}
	}
	return out, true
}

func modelState(o any) value {
	switch x := o.(type) {
	case *value:
		return *x
	case *bufModel:
		return *x
	case *rdrModel:
		return *x
	case *bufioModel:
		return *x
	case *fileModel:
		return *x
	case *syncModel:
		return *x
	}
	return nil
}

func setState(o any, v value) {
	switch x := o.(type) {
	case *value:
		*x = v
	case *bufModel:
		*x = v.(bufModel)
	case *rdrModel:
		*x = v.(rdrModel)
	case *bufioModel:
		*x = v.(bufioModel)
	case *fileModel:
		*x = v.(fileModel)
	case *syncModel:
		*x = v.(syncModel)
	}
}

func (m *Machine) stateAt(o any, p int) value {
	for _, e := range m.wlog[p:] {
		if (e.k == lCell && any(e.cell) == o) || (e.k == lModel && e.obj == o) {
			return e.old
		}
	}
	return modelState(o)
}

// fields of a model state, in a fixed order
func (m *Machine) stateFields(v value) []value {
	switch x := v.(type) {
	case bufModel:
		return []value{x.get(m)}
	case rdrModel:
		return []value{x.seq, x.all}
	case bufioModel:
		var own value = emptySeq
		if x.own != nil {
			own = x.own
		}
		var prev value
		if x.prev != nil {
			prev = x.prev
		}
		return []value{x.src, own, m.tc.Bool(x.got), x.err, prev}
	case syncModel:
		return []value{m.tc.Bool(x.done)}
	}
	return nil
}

func (m *Machine) fromFields(old value, f []value) value {
	switch x := old.(type) {
	case bufModel:
		return bufModel{seq: f[0].(*Seq)}
	case rdrModel:
		return rdrModel{seq: f[0].(*Seq), all: f[1].(*Seq)}
	case bufioModel:
		y := x
		y.own = f[1].(*Seq)
		if f[4] != nil {
			y.prev = f[4].(*Term)
		}
		return y
	}
	return old
}

func (m *Machine) sameVal(x, y value) bool {
	switch a := x.(type) {
	case nil:
		return y == nil
	case *Term:
		b, ok := y.(*Term)
		return ok && a == b
	case *Seq:
		b, ok := y.(*Seq)
		if !ok {
			return false
		}
		p, q := normSeq(a).p, normSeq(b).p
		if len(p) != len(q) {
			return false
		}
		for i := range p {
			if !samePiece(&p[i], &q[i]) {
				return false
			}
		}
		return true
	case *Slice:
		b, ok := y.(*Slice)
		if !ok {
			return false
		}
		if a == b {
			return true
		}
		if a.nilp != b.nilp {
			return false
		}
		if a.r != nil || b.r != nil {
			return a.r == b.r && a.ro == b.ro && a.rn == b.rn
		}
		return len(a.e) == len(b.e) && (len(a.e) == 0 || &a.e[0] == &b.e[0])
	case iface:
		b, ok := y.(iface)
		if !ok {
			return false
		}
		if a.t == nil || b.t == nil {
			return a.t == nil && b.t == nil
		}
		return types.Identical(a.t, b.t) && m.sameVal(a.v, b.v)
	case structure:
		b, ok := y.(structure)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !m.sameVal(a[i], b[i]) {
				return false
			}
		}
		return true
	case array:
		b, ok := y.(array)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !m.sameVal(a[i], b[i]) {
				return false
			}
		}
		return true
	case tuple:
		b, ok := y.(tuple)
		if !ok || len(a) != len(b) {
			return false
		}
		for i := range a {
			if !m.sameVal(a[i], b[i]) {
				return false
			}
		}
		return true
	case *value:
		b, ok := y.(*value)
		return ok && a == b
	case *Map:
		b, ok := y.(*Map)
		return ok && a == b
	case float64:
		b, ok := y.(float64)
		return ok && a == b
	case *ssa.Function:
		b, ok := y.(*ssa.Function)
		return ok && a == b
	case *closure:
		b, ok := y.(*closure)
		return ok && a == b
	}
	return false
}

func asByteSeq(m *Machine, v value) (*Seq, bool) {
	switch x := v.(type) {
	case *Seq:
		return x, true
	case *Slice:
		if x.r != nil {
			return m.sliceSeq(x), true
		}
		if !m.allTerms8(x.e) {
			return nil, false
		}
		return m.sliceSeq(x), true
	}
	return nil, false
}

func lastByteSel(p piece) (*Term, bool) {
	if p.k == pByte && p.t.op == OSelect {
		return p.t, true
	}
	return nil, false
}

// relate classifies how a location changed between two arrivals.
func (m *Machine) relate(x, y value) rel {
	if m.sameVal(x, y) {
		return rel{k: rSame, prev: x, cur: y}
	}
	switch a := x.(type) {
	case *Term:
		b, ok := y.(*Term)
		if !ok || a.w != b.w {
			return rel{k: rNone}
		}
		if a.op == OSelect && b.op == OSelect && a.a == b.a {
			if d, ok := m.diff(b.b, a.b); ok {
				return rel{k: rSel, d: d, arr: a.a, prev: x, cur: y}
			}
		}
		if a.w > 0 {
			if d, ok := m.diff(b, a); ok {
				return rel{k: rAff, d: d, prev: x, cur: y}
			}
		}
		return rel{k: rHavoc, prev: x, cur: y}
	case *Seq, *Slice:
		p, ok1 := asByteSeq(m, x)
		q, ok2 := asByteSeq(m, y)
		if !ok1 || !ok2 {
			return rel{k: rNone}
		}
		pp, qp := splitLits(normSeq(p).p), splitLits(normSeq(q).p)
		if len(qp) == len(pp)+1 {
			same := true
			for i := range pp {
				if !samePiece(&pp[i], &qp[i]) {
					same = false
					break
				}
			}
			if t, ok := lastByteSel(qp[len(qp)-1]); same && ok {
				return rel{k: rApp, arr: t.a, prev: x, cur: y}
			}
		}
		if len(qp) == len(pp) && len(pp) > 0 && pp[0].k == pView && qp[0].k == pView && pp[0].t == qp[0].t {
			same := true
			for i := 1; i < len(pp); i++ {
				if !samePiece(&pp[i], &qp[i]) {
					same = false
				}
			}
			d1, k1 := m.diff(qp[0].off, pp[0].off)
			d2, k2 := m.diff(pp[0].n, qp[0].n)
			if same && k1 && k2 && d1 == 1 && d2 == 1 {
				return rel{k: rPop, arr: pp[0].t, prev: x, cur: y}
			}
		}
		return rel{k: rNone}
	}
	fx, fy := m.stateFields(x), m.stateFields(y)
	if fx != nil && fy != nil && len(fx) == len(fy) {
		r := rel{k: rFields, prev: x, cur: y}
		for i := range fx {
			q := m.relate(fx[i], fy[i])
			if q.k == rNone || (fx[i] == nil) != (fy[i] == nil) {
				return rel{k: rNone}
			}
			r.fld = append(r.fld, q)
		}
		return r
	}
	return rel{k: rNone}
}

// splitLits keeps literals whole (a helper for piecewise comparison).
func splitLits(p []piece) []piece { return p }

func sameRel(a, b rel) bool {
	if a.k == rHavoc && (b.k == rAff || b.k == rSel || b.k == rSame) {
		return true
	}
	if b.k == rHavoc && (a.k == rAff || a.k == rSel || a.k == rSame) {
		return true
	}
	if a.k == rSame && (b.k == rAff || b.k == rSel) {
		return true // treated as havoc
	}
	if b.k == rSame && (a.k == rAff || a.k == rSel) {
		return true
	}
	if a.k != b.k {
		return false
	}
	switch a.k {
	case rAff:
		return true
	case rSel, rApp, rPop:
		return a.arr == b.arr
	case rFields:
		if len(a.fld) != len(b.fld) {
			return false
		}
		for i := range a.fld {
			if !sameRel(a.fld[i], b.fld[i]) {
				return false
			}
		}
	}
	return true
}

// mergeRel combines the two observed steps (weakening to havoc where integers do not move regularly).
func mergeRel(a, b rel) rel {
	if b.k == rFields {
		r := b
		r.fld = append([]rel{}, b.fld...)
		for i := range r.fld {
			r.fld[i] = mergeRel(a.fld[i], b.fld[i])
		}
		return r
	}
	if a.k != b.k || ((a.k == rAff || a.k == rSel) && a.d != b.d) {
		return rel{k: rHavoc, prev: b.prev, cur: b.cur}
	}
	return b
}

func (r rel) any(p func(rel) bool) bool {
	if p(r) {
		return true
	}
	for _, x := range r.fld {
		if x.any(p) {
			return true
		}
	}
	return false
}

func (f *frame) inferTmpl(b *ssa.BasicBlock, t *loopTrack, nphi int) {
	m := f.m
	s0, s1, s2 := t.snaps[0], t.snaps[1], t.snaps[2]
	locs, ok := m.writtenSince(s0.log)
	if !ok {
		return
	}
	tm := &loopTmpl{locs: locs}
	var all []rel
	for i := 0; i < nphi; i++ {
		r1 := m.relate(s0.phis[i], s1.phis[i])
		r2 := m.relate(s1.phis[i], s2.phis[i])
		if r1.k == rNone || r2.k == rNone || !sameRel(r1, r2) {
			accelDebug("%s phi %d: %v %v: %v -> %v -> %v", f.fn, i, r1.k, r2.k, s0.phis[i], s1.phis[i], s2.phis[i])
			return
		}
		r := mergeRel(r1, r2)
		tm.phis = append(tm.phis, r)
		all = append(all, r)
	}
	for _, o := range locs {
		v0, v1, v2 := m.stateAt(o, s0.log), m.stateAt(o, s1.log), modelState(o)
		r1, r2 := m.relate(v0, v1), m.relate(v1, v2)
		if r1.k == rNone || r2.k == rNone || !sameRel(r1, r2) {
			accelDebug("%s loc %T: %v %v: %v -> %v -> %v", f.fn, o, r1.k, r2.k, m.stateFields(v0), m.stateFields(v1), m.stateFields(v2))
			return
		}
		r := mergeRel(r1, r2)
		tm.rels = append(tm.rels, r)
		all = append(all, r)
	}
	view, havoc := false, false
	for _, r := range all {
		if r.any(func(r rel) bool { return r.k == rPop || r.k == rApp }) {
			view = true
		}
		if r.any(func(r rel) bool { return r.k == rHavoc }) {
			havoc = true
		}
	}
	c := m.tc
	// bounds of counters: conditions x < b taken in the last iteration, x moving by +1
	type bnd struct {
		x, b   *Term
		signed bool
	}
	var bnds []bnd
	cmps := func(from, to int) []bnd {
		var out []bnd
		for _, pt := range m.pc[from:to] {
			u := pt
			neg := false
			if u.op == ONot {
				u, neg = u.a, true
			}
			switch {
			case !neg && u.op == OSlt:
				out = append(out, bnd{u.a, u.b, true})
			case !neg && u.op == OUlt:
				out = append(out, bnd{u.a, u.b, false})
			case neg && u.op == OSle:
				out = append(out, bnd{u.b, u.a, true})
			case neg && u.op == OUle:
				out = append(out, bnd{u.b, u.a, false})
			}
		}
		return out
	}
	before := cmps(s0.pc, s1.pc)
	for _, q := range cmps(s1.pc, s2.pc) {
		regular := false
		for _, p := range before {
			if p.signed == q.signed && p.b == q.b {
				if d, ok := m.diff(q.x, p.x); ok && d == 1 {
					regular = true
				}
			}
		}
		if !regular {
			continue
		}
		for i := range tm.phis {
			if tm.phis[i].k != rAff || tm.phis[i].d != 1 {
				continue
			}
			p := s1.phis[i].(*Term)
			if p.w != q.x.w {
				continue
			}
			if _, ok := m.diff(q.x, p); ok {
				bnds = append(bnds, bnd{c.Bin(OAdd, q.x, c.BV(q.x.w, 1)), q.b, q.signed})
				if q.b.op != OConst {
					view = true
				}
				break
			}
		}
	}
	if !view || (havoc && t.count < m.havocAfter) {
		accelDebug("%s: view=%v havoc=%v", f.fn, view, havoc)
		return
	}
	tm.havoc = havoc
	if havoc {
		m.tainted = true
	}
	tm.k = m.freshR("iter", 64, 0, 1<<40)
	for _, bd := range bnds {
		bd := bd
		// base case
		le := func(k *Term) *Term {
			x := c.Bin(OAdd, bd.x, m.kTerm(k, bd.x.w))
			if bd.signed {
				return c.Sle(x, bd.b)
			}
			return c.Ule(x, bd.b)
		}
		if !m.proves(le(c.BV(64, 0))) {
			continue
		}
		tm.inv = append(tm.inv, le)
	}
	for i := range tm.phis {
		v := m.generic(tm.phis[i], tm)
		tm.pvals = append(tm.pvals, v)
	}
	for i := range tm.rels {
		tm.vals = append(tm.vals, m.generic(tm.rels[i], tm))
	}
	for i := range tm.phis {
		f.set(b.Instrs[i].(*ssa.Phi), tm.pvals[i])
	}
	for i, o := range tm.locs {
		setState(o, tm.vals[i])
	}
	m.assumeQuiet(c.Ult(tm.k, c.BV(64, 1<<62)))
	for _, inv := range tm.inv {
		m.assumeQuiet(inv(tm.k))
	}
	tm.log = len(m.wlog)
	t.tmpl = tm
	if os.Getenv("GOVC_ACCEL") != "" {
		accelDebug("%s: installed phis %v inv %d", f.fn, tm.pvals, len(tm.inv))
		for i := range tm.vals {
			accelDebug("   loc %T %v -> %v", tm.locs[i], m.stateFields(tm.rels[i].cur), m.stateFields(tm.vals[i]))
		}
	}
	m.accels[loopSite(f.fn, b)] = true
}

func (m *Machine) kTerm(k *Term, w int) *Term {
	if w == 64 {
		return k
	}
	return m.tc.Extract(k, w-1, 0)
}

func (m *Machine) proves(t *Term) bool {
	if v, ok := m.known(t); ok {
		return v
	}
	// recorded, so that a path forked from this one takes the same decision
	if m.pos < len(m.prefix) {
		v := m.prefix[m.pos]
		m.pos++
		m.trace = append(m.trace, v)
		return v == 1
	}
	r, _ := m.checkNoModel(m.tc.Not(t))
	m.record(b2u(r == Unsat))
	return r == Unsat
}

func (m *Machine) mulK(k *Term, d uint64, w int) *Term {
	c := m.tc
	kt := m.kTerm(k, w)
	if d == 1 {
		return kt
	}
	return c.Bin(OMul, kt, c.BV(w, d))
}

// generic builds the value of a location after k more iterations and records view constraints.
func (m *Machine) generic(r rel, tm *loopTmpl) value {
	c := m.tc
	k := tm.k
	switch r.k {
	case rSame:
		return r.cur
	case rAff:
		t := r.cur.(*Term)
		return c.Bin(OAdd, t, m.mulK(k, r.d, t.w))
	case rSel:
		t := r.cur.(*Term)
		return c.Select(t.a, c.Bin(OAdd, t.b, m.mulK(k, r.d, 64)))
	case rHavoc:
		t := r.cur.(*Term)
		if t.w == 0 {
			return c.Eq(m.fresh("any", 1), c.BV(1, 1))
		}
		return m.fresh("any", t.w)
	case rApp:
		q, _ := asByteSeq(m, r.cur)
		p := normSeq(q).p
		last, _ := lastByteSel(p[len(p)-1])
		off := c.Bin(OAdd, last.b, c.BV(64, 1))
		n := k
		// merge the bytes already copied from the same view
		e := len(p)
		for e > 0 {
			t, ok := lastByteSel(p[e-1])
			if !ok || t.a != r.arr {
				break
			}
			if d, ok := m.diff(off, t.b); !ok || d != 1 {
				break
			}
			off = t.b
			n = c.Bin(OAdd, n, c.BV(64, 1))
			e--
		}
		sb := seqB{}
		for i := 0; i < e; i++ {
			sb.add(p[i])
		}
		sb.add(piece{k: pView, t: r.arr, off: off, n: n})
		return m.likeSeq(r.cur, sb.seq())
	case rPop:
		q, _ := asByteSeq(m, r.cur)
		p := normSeq(q).p
		off, n := p[0].off, p[0].n
		tm.inv = append(tm.inv, func(k *Term) *Term { return c.Ule(k, n) })
		sb := seqB{}
		sb.add(piece{k: pView, t: r.arr, off: c.Bin(OAdd, off, k), n: c.Bin(OSub, n, k)})
		for i := 1; i < len(p); i++ {
			sb.add(p[i])
		}
		return m.likeSeq(r.cur, sb.seq())
	case rFields:
		var fs []value
		for _, x := range r.fld {
			fs = append(fs, m.generic(x, tm))
		}
		return m.fromFields(r.cur, fs)
	}
	panic("generic")
}

func (m *Machine) likeSeq(old value, s *Seq) value {
	if _, ok := old.(*Seq); ok {
		return s
	}
	return m.seqToSlice(s)
}

// step checks that cur is the generic value for k+1, given that tv is the one for k.
func (m *Machine) step(r rel, tv, cur value) bool {
	c := m.tc
	switch r.k {
	case rSame:
		if m.sameVal(tv, cur) {
			return true
		}
		a, ok1 := tv.(*Term)
		b, ok2 := cur.(*Term)
		return ok1 && ok2 && a.w == b.w && m.proves(c.Eq(a, b))
	case rAff:
		a, ok1 := tv.(*Term)
		b, ok2 := cur.(*Term)
		return ok1 && ok2 && a.w == b.w && m.proves(c.Eq(b, c.Bin(OAdd, a, c.BV(a.w, r.d))))
	case rSel:
		a, b := tv.(*Term), cur.(*Term)
		return m.proves(c.Eq(b, c.Select(a.a, c.Bin(OAdd, a.b, c.BV(64, r.d)))))
	case rHavoc:
		_, ok := cur.(*Term)
		return ok
	case rApp:
		p0, ok1 := asByteSeq(m, tv)
		q0, ok2 := asByteSeq(m, cur)
		if !ok1 || !ok2 {
			return false
		}
		p, q := normSeq(p0).p, normSeq(q0).p
		if len(q) != len(p)+1 {
			return false
		}
		for i := range p {
			if !samePiece(&p[i], &q[i]) {
				return false
			}
		}
		l := q[len(q)-1]
		if l.k != pByte {
			return false
		}
		v := p[len(p)-1]
		return m.proves(c.Eq(l.t, c.Select(r.arr, c.Bin(OAdd, v.off, v.n))))
	case rPop:
		p0, ok1 := asByteSeq(m, tv)
		q0, ok2 := asByteSeq(m, cur)
		if !ok1 || !ok2 {
			return false
		}
		p, q := normSeq(p0).p, normSeq(q0).p
		one := c.BV(64, 1)
		rest := func(a, b []piece) bool {
			if len(a) != len(b) {
				return false
			}
			for i := range a {
				if !samePiece(&a[i], &b[i]) {
					return false
				}
			}
			return true
		}
		if len(q) == len(p) && q[0].k == pView && q[0].t == r.arr {
			return rest(p[1:], q[1:]) && m.proves(c.Eq(q[0].off, c.Bin(OAdd, p[0].off, one))) && m.proves(c.Eq(q[0].n, c.Bin(OSub, p[0].n, one)))
		}
		return rest(p[1:], q) && m.proves(c.Eq(p[0].n, one))
	case rFields:
		a, b := m.stateFields(tv), m.stateFields(cur)
		if len(a) != len(b) {
			return false
		}
		for i := range a {
			if !m.step(r.fld[i], a[i], b[i]) {
				return false
			}
		}
		return true
	}
	return false
}

func (f *frame) verifyTmpl(b *ssa.BasicBlock, t *loopTrack, nphi int) {
	m := f.m
	tm := t.tmpl
	fail := func(why string) {
		panic(mismatch(why))
	}
	defer func() {
		r := recover()
		if r == nil {
			return
		}
		why, ok := r.(mismatch)
		if !ok {
			panic(r)
		}
		// Not the generic state for k+1: go on from here (sound: this arrival is explored further).
		t.redo++
		if t.redo > 3 {
			panic(pathEnd{kind: "accelfail", msg: loopSite(f.fn, b), why: string(why)})
		}
		t.tmpl, t.snaps, t.count = nil, nil, 0
	}()
	locs, ok := m.writtenSince(tm.log)
	if !ok {
		fail("write")
	}
	known := map[any]bool{}
	for _, o := range tm.locs {
		known[o] = true
	}
	for _, o := range locs {
		if !known[o] && !m.sameVal(m.stateAt(o, tm.log), modelState(o)) {
			fs, gs := m.stateFields(m.stateAt(o, tm.log)), m.stateFields(modelState(o))
			same := fs != nil && len(fs) == len(gs)
			for i := range fs {
				same = same && m.sameVal(fs[i], gs[i])
			}
			if !same {
				fail("new location")
			}
		}
	}
	for i := range tm.phis {
		if !m.step(tm.phis[i], tm.pvals[i], f.get(b.Instrs[i].(*ssa.Phi))) {
			fail(fmt.Sprintf("phi %d", i))
		}
	}
	for i, o := range tm.locs {
		if !m.step(tm.rels[i], tm.vals[i], modelState(o)) {
			fail(fmt.Sprintf("location %d %T", i, o))
		}
	}
	k1 := m.tc.Bin(OAdd, tm.k, m.tc.BV(64, 1))
	for i, inv := range tm.inv {
		if !m.proves(inv(k1)) {
			fail(fmt.Sprintf("invariant %d", i))
		}
	}
	m.results.mu.Lock()
	o := m.results.obligation(m.h.Name + "/loop-invariant:" + f.fn.Name())
	o.Checked++
	o.Solver++
	m.results.mu.Unlock()
	panic(pathEnd{kind: "induct", msg: ""})
}

func accelDebug(format string, args ...any) {
	if os.Getenv("GOVC_ACCEL") != "" {
		fmt.Fprintf(os.Stderr, "accel: "+format+"\n", args...)
	}
}

// diff returns b-a if it is a constant by linear arithmetic.
func (m *Machine) diff(b, a *Term) (uint64, bool) {
	if a.w != b.w {
		return 0, false
	}
	co := map[*Term]uint64{}
	var k uint64
	var add func(t *Term, c uint64, d int) bool
	add = func(t *Term, c uint64, d int) bool {
		if d > 60 {
			return false
		}
		switch {
		case t.op == OConst:
			k += c * t.k
		case t.op == OAdd:
			return add(t.a, c, d+1) && add(t.b, c, d+1)
		case t.op == OSub:
			return add(t.a, c, d+1) && add(t.b, -c, d+1)
		case t.op == OMul && t.b.op == OConst:
			return add(t.a, c*t.b.k, d+1)
		case t.op == OMul && t.a.op == OConst:
			return add(t.b, c*t.a.k, d+1)
		default:
			co[t] += c
		}
		return true
	}
	if !add(b, 1, 0) || !add(a, ^uint64(0), 0) {
		return 0, false
	}
	mk := mask(a.w)
	for _, v := range co {
		if v&mk != 0 {
			return 0, false
		}
	}
	return k & mk, true
}
